prop = "C16"
needs = "a document with an external image, loaded with LoadExternalBuffers but not LoadExternalImages"
breaks = "the image file is opened although the user did not ask for external images"
edits = [("src/fastgltf.cpp", "uriView.isLocalPath() && hasBit(options, Options::LoadExternalImages)", "uriView.isLocalPath() && hasBit(options, Options::LoadExternalBuffers | Options::LoadExternalImages)"), ]
edits = [("src/fastgltf.cpp", "uriView.isLocalPath() && hasBit(options, Options::LoadExternalImages)", "uriView.isLocalPath() && (options & (Options::LoadExternalBuffers | Options::LoadExternalImages)) != Options::None")]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c16";
    std::filesystem::create_directories(dir);
    { std::ofstream f(dir / "a.png", std::ios::binary); f << "12345678"; }
    auto go = [&](Options o) { return load(R"({"asset":{"version":"2.0"},"images":[{"uri":"a.png"}]})", Extensions::None, o, Category::All, dir); };
    auto a = go(Options::LoadExternalBuffers);
    auto b = go(Options::LoadExternalImages);
    std::filesystem::remove_all(dir);
    CHECK(a.error() == Error::None && b.error() == Error::None);
    CHECK(std::holds_alternative<sources::URI>(a->images[0].data));
    CHECK(std::holds_alternative<sources::Array>(b->images[0].data));
}
'''
