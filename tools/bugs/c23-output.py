prop = "C23"
needs = "an extras callback that exports another asset with another exporter (or two exporters in two threads)"
breaks = "the text of the document being written is shared by all exporters"
edits = [("src/fastgltf.cpp", "    std::string outputString;\n\n    outputString += \"{\";\n\n    // Write asset info", "    // Keeps the allocation for the next export.\n    static std::string outputString;\n    outputString.clear();\n\n    outputString += \"{\";\n\n    // Write asset info")]
main = r'''
struct Ctx { Asset inner; std::string text; };
int main() {
    Ctx c; c.inner.scenes.emplace_back(); c.inner.scenes[0].name = "inner";
    Asset a; a.nodes.emplace_back(); a.nodes[0].name = "outer";
    Exporter plain; auto expected = plain.writeGltfJson(a);
    CHECK(expected.error() == Error::None);
    Exporter e; e.setUserPointer(&c);
    e.setExtrasWriteCallback([](std::size_t, Category, void* p) -> std::optional<std::string> {
        auto* c = static_cast<Ctx*>(p);
        Exporter other; auto r = other.writeGltfJson(c->inner);
        if (r.error() == Error::None) c->text = r->output;
        return std::nullopt;
    });
    auto r = e.writeGltfJson(a);
    CHECK(r.error() == Error::None);
    CHECK(r->output == expected->output);
}
'''
