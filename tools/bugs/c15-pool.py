prop = "C15"
needs = "assigning a loaded asset to another loaded asset with an attribute name that is allocated from its memory pool"
breaks = "the destination's memory pool is destroyed while its old meshes still live in it, so destroying them uses freed memory"
edits = [("include/fastgltf/types.hpp", "\t\t\tassetInfo = std::move(other.assetInfo);\n\t\t\textensionsUsed = std::move(other.extensionsUsed);", "#if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL\n\t\t\tmemoryResource = std::move(other.memoryResource);\n#endif\n\t\t\tassetInfo = std::move(other.assetInfo);\n\t\t\textensionsUsed = std::move(other.extensionsUsed);"),
 ("include/fastgltf/types.hpp", "#if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL\n\t\t\t// This needs to be last to not destroy the old memoryResource for the current data.\n\t\t\tmemoryResource = std::move(other.memoryResource);\n#endif\n\t\t\treturn *this;", "\t\t\treturn *this;")]
flags = "-fsanitize=address"
main = r'''
#include <memory>
static Expected<Asset> one() {
    std::string json = R"({"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"type":"SCALAR","count":1}],"meshes":[{"primitives":[{"attributes":{"_A_LONG_CUSTOM_ATTRIBUTE_NAME":0}}]}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    Parser p;
    return p.loadGltf(d.get(), ".", Options::None, Category::All);
}
int main() {
    auto a = one(), b = one();
    CHECK(a.error() == Error::None && b.error() == Error::None);
    a.get() = std::move(b.get()); // AddressSanitizer reports the use of the old pool.
    CHECK(a->meshes.size() == 1 && a->meshes[0].primitives.size() == 1);
}
'''
