prop = "C01"
needs = "an accessor that has both bounds, of which only \"min\" has too few elements"
breaks = "an invalid \"min\" is ignored when \"max\" was read, so the load succeeds with a partly filled bounds array"
edits = [("src/fastgltf.cpp", "		if (auto error = parseMinMax(\"min\", accessor.min); error != Error::None) {", "		if (auto error = parseMinMax(\"min\", accessor.min); error != Error::None && !accessor.max.has_value()) {")]
main = r'''
static Error get(const char* min, const char* max) {
    std::string s = R"({"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"count":1,"type":"VEC3")";
    if (min) s += std::string(",\"min\":") + min;
    if (max) s += std::string(",\"max\":") + max;
    return load(s + "}]}").error();
}
int main() {
    CHECK(get("[1,2,3]", "[4,5,6]") == Error::None);
    CHECK(get(nullptr, "[4,5,6]") == Error::None);
    CHECK(get("[1,2]", nullptr) == Error::InvalidGltf);
    CHECK(get("[1,2,3]", "[4,5]") == Error::InvalidGltf);
    CHECK(get("[1,2]", "[4,5,6]") == Error::InvalidGltf);
}
'''
