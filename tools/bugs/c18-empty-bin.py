prop = "C18"
needs = "a GLB file with a version other than 2 that is larger than the header says"
breaks = "the version in the header is only checked if nothing follows the container"
edits = [("src/fastgltf.cpp", "	if (header.version != 2) {", "	if (header.version != 2 && header.length == data.totalSize()) {")]
main = r'''
int main() {
    std::string json = R"({"asset":{"version":"2.0"}})"; while (json.size() % 4) json += ' ';
    std::string g = "glTF"; auto u = [&](std::uint32_t v) { for (int i = 0; i < 4; ++i) g += static_cast<char>(v >> (8 * i)); };
    u(1); u(12 + 8 + json.size()); u(json.size()); u(0x4E4F534A); g += json; g += "tail";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(g.data()), g.size());
    Parser p;
    auto a = p.loadGltfBinary(d.get(), {}, Options::None);
    CHECK(a.error() == Error::UnsupportedVersion);
}
'''
