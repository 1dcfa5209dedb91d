prop = "C17"
needs = "a GLB whose binary chunk is loaded into memory of the map callback, and a second load"
breaks = "the custom id of the GLB chunk is not kept, so the buffer cannot be found by the user"
edits = [("src/fastgltf.cpp", "glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};", "glbBuffer = sources::CustomBuffer{static_cast<CustomBufferId>(asset_index), MimeType::None};"),
 ("src/fastgltf.cpp", "			if (config.mapCallback != nullptr) {\n				auto info = config.mapCallback(binaryChunk.chunkLength", "			if (config.mapCallback != nullptr) {\n				static std::size_t asset_index = 0; ++asset_index;\n				auto info = config.mapCallback(binaryChunk.chunkLength")]
main = r'''
static char mem[64];
static BufferInfo map(std::uint64_t, void*) { BufferInfo i; i.mappedMemory = mem; i.customId = 7; return i; }
int main() {
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4}]}   )"; while (json.size() % 4) json += ' ';
    std::string g = "glTF"; auto u = [&](std::uint32_t v) { for (int i = 0; i < 4; ++i) g += static_cast<char>(v >> (8 * i)); };
    u(2); u(12 + 8 + json.size() + 8 + 4); u(json.size()); u(0x4E4F534A); g += json; u(4); u(0x004E4942); g += "1234";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(g.data()), g.size());
    Parser p; p.setBufferAllocationCallback(map, nullptr);
    auto a = p.loadGltfBinary(d.get(), {}, Options::None);
    CHECK(a.error() == Error::None);
    auto* c = std::get_if<sources::CustomBuffer>(&a->buffers[0].data);
    CHECK(c && c->id == 7);
}
'''
