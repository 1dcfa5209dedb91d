prop = "C26"
needs = "a user decoder together with a map callback, and a payload with padding"
breaks = "the decoder is told the size without the padding taken off, which is more than the memory that was asked for"
edits = [("src/fastgltf.cpp", "config.decodeCallback(encodedData, static_cast<std::uint8_t*>(info.mappedMemory), padding, size, config.userPointer);", "config.decodeCallback(encodedData, static_cast<std::uint8_t*>(info.mappedMemory), padding, base64::getOutputSize(encodedData.size(), 0), config.userPointer);")]
main = r'''
static std::size_t asked = 0, told = 0;
static std::uint8_t memory[64];
static BufferInfo map(std::uint64_t size, void*) { asked = size; BufferInfo i{}; i.mappedMemory = memory; i.customId = 1; return i; }
static void decode(std::string_view, std::uint8_t*, std::size_t, std::size_t n, void*) { told = n; }
int main() {
    Parser p;
    p.setBufferAllocationCallback(map, nullptr);
    p.setBase64DecodeCallback(decode);
    std::string_view json = R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAAAAA==","byteLength":4}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    auto a = p.loadGltf(d.get(), ".", Options::None, Category::All);
    CHECK(a.error() == Error::None);
    CHECK(asked == 4); CHECK(told == 4);
}
'''
