prop = "C25"
needs = "a build with FASTGLTF_USE_CUSTOM_SMALLVECTOR"
breaks = "the library uses a member that only std::vector has, so it no longer compiles with its own SmallVector"
edits = [("src/fastgltf.cpp", "                mesh.weights.emplace_back(static_cast<num>(val));", "                mesh.weights.push_back(static_cast<num>(val));")]
flags = "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=1"
link = "src/fastgltf.cpp src/base64.cpp src/io.cpp -lsimdjson"
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"meshes":[{"primitives":[{"attributes":{}}],"weights":[0.5,1]}]})", Extensions::None, Options::None, Category::Meshes);
    CHECK(a.error() == Error::None && a->meshes[0].weights.size() == 2 && a->meshes[0].weights[1] == 1.0f);
}
'''
