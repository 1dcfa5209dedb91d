prop = "C10"
needs = "an extras parse callback on a document whose number of images differs from its number of textures when a texture's extras are read"
breaks = "the callback for a texture is given an index counted in another collection"
edits = [("src/fastgltf.cpp", "config.extrasCallback(&extrasObject, asset.textures.size(), Category::Textures, config.userPointer);", "config.extrasCallback(&extrasObject, asset.images.size(), Category::Textures, config.userPointer);")]
main = r'''
int main() {
    const char* doc = R"({"asset":{"version":"2.0"},"images":[{"uri":"a.png"}],"textures":[{"source":0,"extras":{"a":1}},{"source":0,"extras":{"a":2}}]})";
    static std::vector<std::size_t> seen;
    Parser p;
    int tag = 0;
    p.setUserPointer(&tag);
    p.setExtrasParseCallback([](simdjson::dom::object*, std::size_t i, Category c, void* u) { if (c == Category::Textures) seen.push_back(i); });
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(doc), std::string_view(doc).size());
    auto a = p.loadGltf(d.get(), {}, Options::None);
    CHECK(a.error() == Error::None);
    CHECK(seen.size() == 2 && seen[0] == 0 && seen[1] == 1);
}
'''
