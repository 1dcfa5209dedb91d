prop = "C26"
needs = "a data URI whose encoding merely ends like base64 (such as \";charset=base64\" or another parameter before it)"
breaks = "payloads that are not marked as base64 are decoded as if they were"
edits = [("src/fastgltf.cpp", "    if (encoding != \"base64\") {", "    if (encoding.find(\"base64\") == std::string_view::npos) {")]
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;notbase64,AAAA","byteLength":3}]})");
    CHECK(a.error() != Error::None);
    auto b = load(R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAAA","byteLength":3}]})");
    CHECK(b.error() == Error::None);
}
'''
