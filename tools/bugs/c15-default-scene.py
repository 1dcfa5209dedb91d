prop = "C15"
needs = "assigning an asset without a default scene to one that has a default scene"
breaks = "the default scene of the earlier asset survives and may be out of range"
edits = [("include/fastgltf/types.hpp", "\t\t\tdefaultScene = other.defaultScene;\n\t\t\taccessors = std::move", "\t\t\tif (other.defaultScene.has_value())\n\t\t\t\tdefaultScene = other.defaultScene;\n\t\t\taccessors = std::move")]
main = r'''
int main() {
    auto a = load(R"({"asset":{"version":"2.0"},"scene":1,"scenes":[{},{}]})"), b = load(R"({"asset":{"version":"2.0"}})");
    CHECK(a.error() == Error::None && b.error() == Error::None);
    a.get() = std::move(b.get());
    CHECK(a->scenes.empty());
    CHECK(!a->defaultScene.has_value());
}
'''
