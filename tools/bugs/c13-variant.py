prop = "C13"
needs = "KHR_materials_variants mappings whose variant index equals the number of mappings already present"
breaks = "the mapping is written one past the end of the primitive's mappings"
edits = [("src/fastgltf.cpp", "static_cast<std::size_t>(variantIndex + 1)", "static_cast<std::size_t>(variantIndex)")]
flags = "-D_GLIBCXX_ASSERTIONS"
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_materials_variants"],"materials":[{}],"meshes":[{"primitives":[{"attributes":{"POSITION":0},"extensions":{"KHR_materials_variants":{"mappings":[{"material":0,"variants":[0,2]}]}}}]}]})", Extensions::KHR_materials_variants);
    CHECK(a.error() == Error::None);
    auto& m = a->meshes[0].primitives[0].mappings;
    CHECK(m.size() == 3 && m[2].has_value() && *m[2] == 0);
}
'''
