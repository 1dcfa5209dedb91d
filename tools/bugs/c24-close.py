prop = "C24"
needs = "an image whose bytes fit into the stream's buffer and a full disk (/dev/full)"
breaks = "the data of a byte view is still buffered in the stream when the result of writing it is returned"
edits = [("src/fastgltf.cpp", "				file.write(reinterpret_cast<const char *>(view.bytes.data()),\n						   static_cast<std::streamsize>(view.bytes.size()));\n				file.close();\n				return file.good();", "				file.write(reinterpret_cast<const char *>(view.bytes.data()),\n						   static_cast<std::streamsize>(view.bytes.size()));\n				return file.good();")]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c24";
    std::filesystem::create_directories(dir);
    std::filesystem::create_symlink("/dev/full", dir / "full.bin");
    static std::byte data[16] = {};
    Asset a; a.buffers.emplace_back();
    a.buffers[0].name = "full"; a.buffers[0].byteLength = 16;
    sources::ByteView v; v.bytes = span<const std::byte>(data, 16);
    a.buffers[0].data = v;
    FileExporter e;
    auto r = e.writeGltfJson(a, dir / "a.gltf", ExportOptions::None);
    std::filesystem::remove_all(dir);
    CHECK(r != Error::None);
}
'''
