prop = "C06"
needs = "a texture info whose KHR_texture_transform has a rotation and a scale"
breaks = "rotation and scale of KHR_texture_transform are written without a comma between them"
edits = [("src/fastgltf.cpp", """				if (json.back() != '{') json += ',';
				json += "\\"scale\\":[" + to_string_fp(transform.uvScale[0])""", """				if (json.back() == ']') json += ',';
				json += "\\"scale\\":[" + to_string_fp(transform.uvScale[0])""")]
main = r'''
int main() {
    Asset asset;
    Material m;
    m.pbrData.baseColorTexture = TextureInfo {};
    m.pbrData.baseColorTexture->textureIndex = 0;
    m.pbrData.baseColorTexture->transform = std::make_unique<TextureTransform>();
    m.pbrData.baseColorTexture->transform->rotation = 0.5f;
    m.pbrData.baseColorTexture->transform->uvScale = math::nvec2(2.0f, 2.0f);
    asset.materials.emplace_back(std::move(m));
    Exporter e;
    auto r = e.writeGltfJson(asset);
    CHECK(r.error() == Error::None);
    auto a = load(r->output, Extensions::KHR_texture_transform, Options::None, Category::Materials);
    CHECK(a.error() == Error::None && a->materials[0].pbrData.baseColorTexture->transform->rotation == 0.5f);
}
'''
