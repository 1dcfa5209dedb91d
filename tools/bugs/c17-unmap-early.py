prop = "C17"
needs = "map and unmap callbacks and an external file"
breaks = "the memory is unmapped before the file was read into it"
edits = [("src/io.cpp", "			const sources::CustomBuffer customBufferSource = { info.customId };\n", "			const sources::CustomBuffer customBufferSource = { info.customId };\n			if (config.unmapCallback != nullptr)\n				config.unmapCallback(&info, config.userPointer);\n"),
 ("src/io.cpp", "			if (config.unmapCallback != nullptr) {\n				config.unmapCallback(&info, config.userPointer);\n			}\n			if (!file) {", "			if (!file) {")]
main = r'''
static char mem[64]; static bool seen = false;
static BufferInfo map(std::uint64_t, void*) { BufferInfo i; i.mappedMemory = mem; i.customId = 3; return i; }
static void unmap(BufferInfo*, void*) { seen = mem[0] == '1'; }
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c17";
    std::filesystem::create_directories(dir);
    { std::ofstream f(dir / "a.bin", std::ios::binary); f << "12345678"; }
    std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":8,"uri":"a.bin"}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    Parser p; p.setBufferAllocationCallback(map, unmap);
    auto a = p.loadGltf(d.get(), dir, Options::LoadExternalBuffers);
    std::filesystem::remove_all(dir);
    CHECK(a.error() == Error::None);
    CHECK(seen);
}
'''
