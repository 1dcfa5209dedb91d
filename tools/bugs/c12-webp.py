prop = "C12"
needs = "a texture whose EXT_texture_webp image index equals the number of images"
breaks = "validate() accepts a WebP image index that is one past the end"
edits = [("src/fastgltf.cpp", "texture.webpImageIndex.has_value() && texture.webpImageIndex.value() >= asset.images.size()", "texture.webpImageIndex.has_value() && texture.webpImageIndex.value() > asset.images.size()")]
main = r'''
int main() {
    Asset a; a.extensionsUsed.emplace_back("EXT_texture_webp");
    a.images.resize(1); a.textures.resize(1);
    a.textures[0].webpImageIndex = 0;
    CHECK(validate(a) == Error::None);
    a.textures[0].webpImageIndex = 1;
    CHECK(validate(a) != Error::None);
}
'''
