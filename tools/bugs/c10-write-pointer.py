prop = "C10"
needs = "an export of an asset with a skin, an extras write callback and a user pointer"
breaks = "the write callback of a skin is handed a null user pointer and the category of a scene"
edits = [("src/fastgltf.cpp", "uabs(std::distance(asset.skins.begin(), it)), fastgltf::Category::Skins, userPointer);", "uabs(std::distance(asset.skins.begin(), it)), fastgltf::Category::Skins, nullptr);")]
main = r'''
int main() {
    const char* doc = R"({"asset":{"version":"2.0"},"nodes":[{}],"skins":[{"joints":[0]}]})";
    auto a = load(doc);
    CHECK(a.error() == Error::None);
    static int tag = 0, good = 0, bad = 0;
    Exporter e;
    e.setUserPointer(&tag);
    e.setExtrasWriteCallback([](std::size_t i, Category c, void* u) -> std::optional<std::string> { if (u == &tag) good++; else bad++; return std::nullopt; });
    auto r = e.writeGltfJson(a.get());
    CHECK(r.error() == Error::None);
    CHECK(good >= 2 && bad == 0);
}
'''
