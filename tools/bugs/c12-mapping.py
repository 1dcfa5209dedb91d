prop = "C12"
needs = "KHR_materials_variants: a primitive whose first variant has no mapping and a later one an out-of-range material"
breaks = "validate() stops checking a primitive's variant mappings at the first variant without one"
edits = [("src/fastgltf.cpp", '''					if (!mapping.has_value())
						continue;
					if (mapping.value() >= asset.materials.size())''', '''					if (!mapping.has_value())
						break;
					if (mapping.value() >= asset.materials.size())''')]
main = r'''
int main() {
    Asset a; a.extensionsUsed.emplace_back("KHR_materials_variants");
    a.materialVariants.resize(2); a.materials.resize(1);
    a.meshes.resize(1); a.meshes[0].primitives.resize(1);
    a.meshes[0].primitives[0].mappings.resize(2);
    a.meshes[0].primitives[0].mappings[1] = 0;
    CHECK(validate(a) == Error::None);
    a.meshes[0].primitives[0].mappings[1] = 7;
    CHECK(validate(a) != Error::None);
}
'''
