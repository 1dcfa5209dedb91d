prop = "C15"
needs = "a parser with user callbacks that is moved before it loads"
breaks = "the moved parser keeps only the enabled extensions; callbacks and their user pointer are lost"
edits = [("src/fastgltf.cpp", "fg::Parser::Parser(Parser&& other) noexcept : jsonParser(std::move(other.jsonParser)), config(other.config) {}", "fg::Parser::Parser(Parser&& other) noexcept : jsonParser(std::move(other.jsonParser)) {\n\tconfig.extensions = other.config.extensions;\n\tconfig.mapCallback = other.config.mapCallback;\n\tconfig.unmapCallback = other.config.unmapCallback;\n\tconfig.userPointer = other.config.userPointer;\n\tconfig.extrasCallback = other.config.extrasCallback;\n}")]
main = r'''
static void decode(std::string_view, std::uint8_t* out, std::size_t, std::size_t n, void* u) { ++*static_cast<int*>(u); for (std::size_t i = 0; i < n; ++i) out[i] = 7; }
int main() {
    int calls = 0;
    Parser p;
    p.setUserPointer(&calls);
    p.setBase64DecodeCallback(decode);
    Parser q(std::move(p));
    std::string_view json = R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAAA","byteLength":3}]})";
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    auto a = q.loadGltf(d.get(), ".", Options::None, Category::All);
    CHECK(a.error() == Error::None);
    CHECK(calls == 1);
}
'''
