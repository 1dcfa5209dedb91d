prop = "C09"
needs = "a load that asks for textures or materials but for no meshes or accessors, of a document whose images live in buffer views"
breaks = "the images refer to buffer views that were not loaded, because images are added after the categories of images were expanded"
edits = [("src/fastgltf.cpp", '''    if (hasBit(inputCategories, Category::Textures))
        inputCategories |= Category::Images | Category::Samplers;
    if (hasBit(inputCategories, Category::Images) || hasBit(inputCategories, Category::Accessors))
        inputCategories |= Category::BufferViews;
''', '''    if (hasBit(inputCategories, Category::Images) || hasBit(inputCategories, Category::Accessors))
        inputCategories |= Category::BufferViews;
    if (hasBit(inputCategories, Category::Textures))
        inputCategories |= Category::Images | Category::Samplers;
''')]
main = r'''
int main() {
    const char* doc = R"({"asset":{"version":"2.0"},"materials":[{"emissiveTexture":{"index":0}}],"textures":[{"source":0}],"images":[{"bufferView":0,"mimeType":"image/png"}],"bufferViews":[{"buffer":0,"byteLength":1}],"buffers":[{"byteLength":4,"uri":"data:application/octet-stream;base64,AAAAAA=="}]})";
    auto a = load(doc, Extensions::None, Options::None, Category::Materials);
    CHECK(a.error() == Error::None);
    CHECK(a->images.size() == 1 && std::holds_alternative<sources::BufferView>(a->images[0].data));
    CHECK(std::get<sources::BufferView>(a->images[0].data).bufferViewIndex < a->bufferViews.size());
    CHECK(a->bufferViews[0].bufferIndex < a->buffers.size());
}
'''
