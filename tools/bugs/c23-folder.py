prop = "C23"
needs = "two parsers loading files with external buffers from different directories in one process"
breaks = "the directory the first parser resolved its URIs against is kept for every other parser"
import re
src = open("/repo/src/io.cpp").read()
i = src.index("Parser::loadFileFromUri(URIView& uri) const noexcept")
body = src[i:i+1500]
m = re.search(r"\n(\t+)auto path = directory / (.*?);\n", body)
edits = [("src/io.cpp", m.group(0)[1:], m.group(1) + "// The directory has been normalised already.\n" + m.group(1) + "static const std::filesystem::path folder = directory;\n" + m.group(1) + "auto path = folder / " + m.group(2) + ";\n")]
main = r'''
#include <fstream>
static std::size_t load(const std::filesystem::path& dir, const char* text) {
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"uri":"b.bin","byteLength":4}]})";
    std::filesystem::create_directories(dir);
    std::ofstream(dir / "b.bin") << text;
    auto data = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    Parser p;
    auto a = p.loadGltfJson(data.get(), dir, Options::LoadExternalBuffers);
    if (a.error() != Error::None) return 999;
    auto* v = std::get_if<sources::Array>(&a->buffers[0].data);
    return v == nullptr ? 998 : std::size_t(v->bytes[0]);
}
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c23";
    auto x = load(dir / "x", "XXXX"), y = load(dir / "y", "YYYY");
    std::filesystem::remove_all(dir);
    CHECK(x == 'X'); CHECK(y == 'Y');
}
'''
