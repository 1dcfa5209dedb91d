prop = "C26"
needs = "a payload with padding decoded into mapped memory"
breaks = "the padding is taken from the whole path up to the comma search, so the decoder writes bytes for padding characters"
edits = [("src/fastgltf.cpp", "                base64::decode_inplace(encodedData, static_cast<std::uint8_t*>(info.mappedMemory), padding);", "                base64::decode_inplace(encodedData, static_cast<std::uint8_t*>(info.mappedMemory), 0);")]
main = r'''
static std::uint8_t memory[64];
static std::size_t asked = 0;
static BufferInfo map(std::uint64_t size, void*) { asked = size; BufferInfo i{}; i.mappedMemory = memory; i.customId = 1; return i; }
int main() {
    for (auto& x : memory) x = 0xee;
    Parser p;
    p.setBufferAllocationCallback(map, nullptr);
    std::string_view json = R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAAAAA==","byteLength":4}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    auto a = p.loadGltf(d.get(), ".", Options::None, Category::All);
    CHECK(a.error() == Error::None);
    CHECK(asked == 4); CHECK(memory[3] == 0); CHECK(memory[4] == 0xee);
}
'''
