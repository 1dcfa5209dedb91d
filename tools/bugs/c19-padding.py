prop = "C19"
needs = "data given as bytes"
breaks = "the padding simdjson reads behind the data is only allocated for files"
edits = [("src/io.cpp", "void fg::GltfDataBuffer::allocateAndCopy(const std::byte *bytes) noexcept {\n	allocatedSize = dataSize + simdjson::SIMDJSON_PADDING;", "void fg::GltfDataBuffer::allocateAndCopy(const std::byte *bytes) noexcept {\n	allocatedSize = dataSize + simdjson::SIMDJSON_PADDING - dataSize % simdjson::SIMDJSON_PADDING;")]
main = r'''
struct Peek : GltfDataBuffer { Peek(GltfDataBuffer&& b) : GltfDataBuffer(std::move(b)) {} std::size_t extra() { return allocatedSize - dataSize; } };
int main() {
    std::string json = R"({"asset":{"version":"2.0"}})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    CHECK(d.error() == Error::None);
    Peek p(std::move(d.get()));
    CHECK(p.extra() >= 64);
}
'''
