prop = "C19"
needs = "a mapped file that is move-assigned and used after the source was destroyed"
breaks = "move assignment leaves the mapping with the source too, which releases it"
edits = [("src/io.cpp", "		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);\n	}\n	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);\n", "		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);\n	}\n	mappedFile = other.mappedFile;\n")]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c19m";
    std::filesystem::create_directories(dir);
    { std::ofstream f(dir / "a.gltf", std::ios::binary); f << R"({"asset":{"version":"2.0"}})"; }
    MappedGltfFile target;
    { auto m = MappedGltfFile::FromPath(dir / "a.gltf"); CHECK(m.error() == Error::None); target = std::move(m.get()); }
    std::filesystem::remove_all(dir);
    Parser p;
    auto a = p.loadGltfJson(target, dir, Options::None);
    CHECK(a.error() == Error::None);
}
'''
