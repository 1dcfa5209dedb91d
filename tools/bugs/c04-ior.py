prop = "C04"
needs = "a material whose ior is exactly 1"
breaks = "the exporter leaves out the material's ior when it is 1, although an absent ior is read as 1.5"
edits = [("src/fastgltf.cpp", "		if (it->ior != 1.5f) {", "		if (it->ior != 1.0f) {")]
main = r'''
int main() {
    for (float ior : { 1.0f, 1.25f, 1.5f }) {
        Asset asset;
        Material m;
        m.ior = ior;
        asset.materials.emplace_back(std::move(m));
        Exporter e;
        auto r = e.writeGltfJson(asset);
        CHECK(r.error() == Error::None);
        auto a = load(r->output, Extensions::KHR_materials_ior, Options::None, Category::Materials);
        CHECK(a.error() == Error::None && a->materials[0].ior == ior);
    }
}
'''
