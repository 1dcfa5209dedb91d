prop = "C11"
needs = "a second load with the same parser that is given no directory, after one that was"
breaks = "an empty directory no longer replaces the directory of the previous load, so relative URIs are resolved against a foreign folder"
edits = [("src/fastgltf.cpp", "fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path _directory, Options _options, Category categories) {\n    using namespace simdjson;\n\n\toptions = _options;\n\tdirectory = std::move(_directory);\n",
 "fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path _directory, Options _options, Category categories) {\n    using namespace simdjson;\n\n\toptions = _options;\n\tif (!_directory.empty())\n\t\tdirectory = std::move(_directory);\n")]
main = r'''
#include <fstream>
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c11";
    std::filesystem::create_directories(dir);
    std::ofstream(dir / "b.bin") << "XXXX";
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"uri":"b.bin","byteLength":4}]})";
    auto once = [&](Parser& p, std::filesystem::path d) {
        auto data = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
        return p.loadGltfJson(data.get(), d, Options::LoadExternalBuffers).error();
    };
    Parser fresh, used;
    auto expected = once(fresh, {});
    auto first = once(used, dir);
    auto second = once(used, {});
    std::filesystem::remove_all(dir);
    CHECK(first == Error::None);
    CHECK(second == expected);
}
'''
