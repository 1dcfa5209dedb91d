prop = "C18"
needs = "a GLB whose second chunk is not a BIN chunk"
breaks = "the chunk is loaded as if it were the binary chunk"
edits = [("src/fastgltf.cpp", "        if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {", "        if (binaryChunk.chunkType != binaryGltfDataChunkMagic && binaryChunk.chunkLength == 0) {")]
main = r'''
int main() {
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4}]})"; while (json.size() % 4) json += ' ';
    std::string g = "glTF"; auto u = [&](std::uint32_t v) { for (int i = 0; i < 4; ++i) g += static_cast<char>(v >> (8 * i)); };
    u(2); u(12 + 8 + json.size() + 8 + 4); u(json.size()); u(0x4E4F534A); g += json; u(4); u(0x58585858); g += "1234";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(g.data()), g.size());
    Parser p;
    auto a = p.loadGltfBinary(d.get(), {}, Options::None);
    CHECK(a.error() == Error::InvalidGLB);
}
'''
