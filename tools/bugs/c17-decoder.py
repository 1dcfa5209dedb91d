prop = "C17"
needs = "a base64 decode callback together with a map callback that returns memory"
breaks = "the data URI is decoded by the library although the user set a decoder"
edits = [("src/fastgltf.cpp", "            if (config.decodeCallback != nullptr) {\n", "            if (config.decodeCallback != nullptr && config.unmapCallback == nullptr) {\n")]
main = r'''
static char mem[64]; static bool called = false;
static BufferInfo map(std::uint64_t, void*) { BufferInfo i; i.mappedMemory = mem; i.customId = 3; return i; }
static void unmap(BufferInfo*, void*) {}
static void dec(std::string_view, std::uint8_t*, std::size_t, std::size_t, void*) { called = true; }
int main() {
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":"data:application/octet-stream;base64,AAAA"}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    Parser p; p.setBufferAllocationCallback(map, unmap); p.setBase64DecodeCallback(dec);
    auto a = p.loadGltf(d.get(), {}, Options::None);
    CHECK(a.error() == Error::None);
    CHECK(called);
}
'''
