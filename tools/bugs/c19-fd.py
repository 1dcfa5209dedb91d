prop = "C19"
needs = "a process that maps several files"
breaks = "the descriptor of a mapped file is only closed when the mapping failed"
edits = [("src/io.cpp", "	// The file descriptor is not used for the memory mapped and is not required anymore.\n	close(fd);\n", "	// The file descriptor is not required anymore.\n	if (error != Error::None)\n		close(fd);\n")]
main = r'''
static int fds() { int n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c19";
    std::filesystem::create_directories(dir);
    { std::ofstream f(dir / "a.gltf", std::ios::binary); f << R"({"asset":{"version":"2.0"}})"; }
    int before = fds();
    bool ok = true;
    for (int i = 0; i < 4; ++i) { auto m = MappedGltfFile::FromPath(dir / "a.gltf"); ok = ok && m.error() == Error::None; }
    int after = fds();
    std::filesystem::remove_all(dir);
    CHECK(ok);
    CHECK(before == after);
}
'''
