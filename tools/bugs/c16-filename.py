prop = "C16"
needs = "an external buffer in a subdirectory of the directory given to the load"
breaks = "only the last component of the URI's path is looked up"
edits = [("src/io.cpp", "directory / fs::u8path(decodedUri.path());", "directory / fs::u8path(decodedUri.path()).filename();")]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c16b";
    std::filesystem::create_directories(dir / "sub");
    { std::ofstream f(dir / "sub" / "a.bin", std::ios::binary); f << "12345678"; }
    { std::ofstream f(dir / "a.bin", std::ios::binary); f << "abcdefgh"; }
    auto a = load(R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":8,"uri":"sub/a.bin"}]})", Extensions::None, Options::LoadExternalBuffers, Category::All, dir);
    std::filesystem::remove_all(dir);
    CHECK(a.error() == Error::None);
    auto* v = std::get_if<sources::Array>(&a->buffers[0].data);
    CHECK(v && v->bytes.size() == 8 && static_cast<char>(v->bytes[0]) == '1');
}
'''
