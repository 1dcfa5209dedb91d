prop = "C05"
needs = "a document with a meshopt-compressed buffer view using the OCTAHEDRAL or QUATERNION filter"
breaks = "two of the meshopt filter names are read as each other's enumerator, while the exporter writes them correctly"
edits = [("src/fastgltf.cpp", "compression->filter = MeshoptCompressionFilter::Octahedral;", "compression->filter = MeshoptCompressionFilter::Quaternion; /**/"),
  ("src/fastgltf.cpp", "compression->filter = MeshoptCompressionFilter::Quaternion;\n", "compression->filter = MeshoptCompressionFilter::Octahedral;\n"),
  ("src/fastgltf.cpp", "compression->filter = MeshoptCompressionFilter::Quaternion; /**/", "compression->filter = MeshoptCompressionFilter::Quaternion;")]
main = r'''
static int f(const char* name, MeshoptCompressionFilter want) {
    std::string j = R"({"asset":{"version":"2.0"},"extensionsUsed":["EXT_meshopt_compression"],"buffers":[{"byteLength":64,"uri":"x.bin"}],"bufferViews":[{"buffer":0,"byteLength":16,"extensions":{"EXT_meshopt_compression":{"buffer":0,"byteLength":16,"byteStride":4,"count":4,"mode":"ATTRIBUTES","filter":")" + std::string(name) + R"("}}}]})";
    auto a = load(j, Extensions::EXT_meshopt_compression);
    CHECK(a.error() == Error::None);
    CHECK(a->bufferViews[0].meshoptCompression && a->bufferViews[0].meshoptCompression->filter == want);
    return 0;
}
int main() { return f("OCTAHEDRAL", MeshoptCompressionFilter::Octahedral) + f("QUATERNION", MeshoptCompressionFilter::Quaternion) + f("EXPONENTIAL", MeshoptCompressionFilter::Exponential); }
'''
