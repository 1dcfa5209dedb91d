prop = "C18"
needs = "a binary export whose first buffer has a byteLength that is not a multiple of four"
breaks = "the length in the BIN chunk header leaves out the padding, so the chunk is not padded to four bytes and the container has trailing bytes"
edits = [("src/fastgltf.cpp", "dataChunk.chunkLength = static_cast<std::uint32_t>(alignUp(buffer.byteLength, 4));", "dataChunk.chunkLength = static_cast<std::uint32_t>(buffer.byteLength);")]
main = r'''
int main() {
    Asset a; a.assetInfo = AssetInfo{}; a.assetInfo->gltfVersion = "2.0";
    Buffer b; b.byteLength = 5; sources::Vector v; v.bytes.resize(5); b.data = std::move(v);
    a.buffers.emplace_back(std::move(b));
    Exporter e;
    auto r = e.writeGltfBinary(a, ExportOptions::None);
    CHECK(r.error() == Error::None);
    auto& o = r.get().output;
    auto u = [&](std::size_t p) { std::uint32_t x = 0; for (int i = 0; i < 4; ++i) x |= static_cast<std::uint32_t>(o[p + i]) << (8 * i); return x; };
    CHECK(u(8) == o.size());
    std::size_t j = u(12); CHECK(j % 4 == 0);
    std::size_t n = u(20 + j); CHECK(n % 4 == 0 && 28 + j + n == o.size());
}
'''
