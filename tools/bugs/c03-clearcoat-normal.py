prop = "C03"
needs = "a material using KHR_materials_clearcoat with both a roughness and a normal texture"
breaks = "the clearcoat normal texture is read from the key of the roughness texture"
edits = [("src/fastgltf.cpp", 'parseTextureInfo(clearcoatObject, "clearcoatNormalTexture"', 'parseTextureInfo(clearcoatObject, "clearcoatRoughnessTexture"')]
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_materials_clearcoat"],"textures":[{},{},{},{}],"materials":[{"extensions":{"KHR_materials_clearcoat":{"clearcoatTexture":{"index":1},"clearcoatRoughnessTexture":{"index":2},"clearcoatNormalTexture":{"index":3}}}}]})", Extensions::KHR_materials_clearcoat);
    CHECK(a.error() == Error::None);
    CHECK(a->materials[0].clearcoat->clearcoatRoughnessTexture->textureIndex == 2);
    CHECK(a->materials[0].clearcoat->clearcoatNormalTexture->textureIndex == 3);
}
'''
