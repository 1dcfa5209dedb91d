prop = "C08"
needs = "a node with KHR_node_hoverability data and a parser with KHR_node_selectability but not KHR_node_hoverability enabled"
breaks = "hoverability data reaches the node although its extension is disabled"
edits = [("src/fastgltf.cpp", "hasBit(config.extensions, Extensions::KHR_node_hoverability)", "hasBit(config.extensions, Extensions::KHR_node_hoverability | Extensions::KHR_node_selectability)")]
edits = [("src/fastgltf.cpp", "if (hasBit(config.extensions, Extensions::KHR_node_hoverability)) {", "if ((config.extensions & (Extensions::KHR_node_hoverability | Extensions::KHR_node_selectability)) != Extensions::None) {")]
main = r'''
int main() {
    const char* doc = R"({"asset":{"version":"2.0"},"nodes":[{"extensions":{"KHR_node_hoverability":{"hoverable":false}}}]})";
    auto a = load(doc, Extensions::KHR_node_hoverability);
    CHECK(a.error() == Error::None && !a->nodes[0].hoverable);
    auto b = load(doc, Extensions::KHR_node_selectability);
    CHECK(b.error() == Error::None && b->nodes[0].hoverable);
}
'''
