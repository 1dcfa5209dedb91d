prop = "C19"
needs = "a file that cannot be mapped (an empty one)"
breaks = "a failed mapping is not reported"
edits = [("src/io.cpp", "		munmap(memory, length + simdjson::SIMDJSON_PADDING);\n		error = Error::FileBufferAllocationFailed;\n	}\n", "		munmap(memory, length + simdjson::SIMDJSON_PADDING);\n	}\n")]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c19e";
    std::filesystem::create_directories(dir);
    { std::ofstream f(dir / "a.gltf", std::ios::binary); }
    auto m = MappedGltfFile::FromPath(dir / "a.gltf");
    std::filesystem::remove_all(dir);
    CHECK(m.error() != Error::None);
}
'''
