prop = "C04"
needs = "a texture info with a KHR_texture_transform whose texCoord is 0 while the texture info's own is not"
breaks = "an overriding texture coordinate index of 0 is not exported"
edits = [("src/fastgltf.cpp", "			if (transform.texCoordIndex.has_value()) {", "			if (transform.texCoordIndex.value_or(0) != 0) {")]
main = r'''
int main() {
    for (std::size_t own : { 0, 1 }) for (int over : { -1, 0, 2 }) {
        Asset asset;
        Material m;
        m.pbrData.baseColorTexture = TextureInfo {};
        m.pbrData.baseColorTexture->textureIndex = 0;
        m.pbrData.baseColorTexture->texCoordIndex = own;
        m.pbrData.baseColorTexture->transform = std::make_unique<TextureTransform>();
        m.pbrData.baseColorTexture->transform->rotation = 0.5f;
        if (over >= 0) m.pbrData.baseColorTexture->transform->texCoordIndex = static_cast<std::size_t>(over);
        asset.materials.emplace_back(std::move(m));
        Exporter e;
        auto r = e.writeGltfJson(asset);
        CHECK(r.error() == Error::None);
        auto a = load(r->output, Extensions::KHR_texture_transform, Options::None, Category::Materials);
        CHECK(a.error() == Error::None);
        auto& t = *a->materials[0].pbrData.baseColorTexture;
        CHECK(t.texCoordIndex == own && t.transform->texCoordIndex.has_value() == (over >= 0));
        CHECK(over < 0 || *t.transform->texCoordIndex == std::size_t(over));
    }
}
'''
