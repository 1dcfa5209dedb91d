prop = "C03"
needs = "a sparse accessor whose values have a byteOffset and whose indices have none (or another one)"
breaks = "accessor.sparse.values.byteOffset is stored as the byte offset of the indices"
edits = [("src/fastgltf.cpp", "sparse.valuesByteOffset = static_cast<std::size_t>(value);", "sparse.indicesByteOffset = static_cast<std::size_t>(value);")]
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":64,"uri":"x.bin"}],"bufferViews":[{"buffer":0,"byteLength":64}],"accessors":[{"componentType":5126,"count":4,"type":"SCALAR","sparse":{"count":1,"indices":{"bufferView":0,"componentType":5121,"byteOffset":4},"values":{"bufferView":0,"byteOffset":8}}}]})");
    CHECK(a.error() == Error::None);
    CHECK(a->accessors[0].sparse->indicesByteOffset == 4);
    CHECK(a->accessors[0].sparse->valuesByteOffset == 8);
}
'''
