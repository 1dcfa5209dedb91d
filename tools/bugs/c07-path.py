prop = "C07"
needs = "an embedded buffer whose name contains a quote or a backslash"
breaks = "the name of the buffer file is written into the URI string without escaping"
edits = [("src/fastgltf.cpp", """		auto string = path.lexically_normal().generic_string();
		escapeString(string);
		return string;""", """		// The generic format has no separators that would need to be escaped.
		return path.lexically_normal().generic_string();""")]
main = r'''
int main() {
    Asset asset;
    Buffer b;
    b.byteLength = 4;
    b.name = "a\"b";
    sources::Vector v; v.bytes.resize(4);
    b.data = std::move(v);
    asset.buffers.emplace_back(std::move(b));
    Exporter e;
    auto r = e.writeGltfJson(asset);
    CHECK(r.error() == Error::None);
    auto a = load(r->output);
    CHECK(a.error() == Error::None && a->buffers[0].name == "a\"b");
}
'''
