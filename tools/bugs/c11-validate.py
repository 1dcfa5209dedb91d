prop = "C11"
needs = "an export without ExportOptions::ValidateAsset of an asset that would not validate, after an export with it by the same exporter"
breaks = "whether the asset is validated is decided by the options of the previous export"
edits = [("src/fastgltf.cpp", '''    options = _options;
	exportingBinary = false;

    if (hasBit(options, ExportOptions::ValidateAsset)) {
        if (const auto validation = validate(asset); validation != Error::None) {
            return validation;
        }
    }
''', '''	exportingBinary = false;

    if (hasBit(options, ExportOptions::ValidateAsset)) {
        if (const auto validation = validate(asset); validation != Error::None) {
            return validation;
        }
    }
    options = _options;
''')]
main = r'''
int main() {
    Asset good; Asset bad; bad.scenes.emplace_back(); bad.scenes[0].nodeIndices.emplace_back(7);
    Exporter fresh; auto a = fresh.writeGltfJson(bad, ExportOptions::None);
    Exporter used; (void)used.writeGltfJson(good, ExportOptions::ValidateAsset);
    auto b = used.writeGltfJson(bad, ExportOptions::None);
    CHECK(a.error() == b.error());
}
'''
