prop = "C05"
needs = "a sampler whose wrapS is Repeat and whose wrapT is not"
breaks = "wrapT is only exported when wrapS is not Repeat, so that it is read back as Repeat"
edits = [("src/fastgltf.cpp", "		if (it->wrapT != Wrap::Repeat) {", "		if (it->wrapS != Wrap::Repeat) {")]
main = r'''
int main() {
    for (auto s : { Wrap::Repeat, Wrap::ClampToEdge, Wrap::MirroredRepeat }) for (auto t : { Wrap::Repeat, Wrap::ClampToEdge, Wrap::MirroredRepeat }) {
        Asset asset;
        Sampler m;
        m.wrapS = s;
        m.wrapT = t;
        asset.samplers.emplace_back(std::move(m));
        Exporter e;
        auto r = e.writeGltfJson(asset);
        CHECK(r.error() == Error::None);
        auto a = load(r->output, Extensions::None, Options::None, Category::Samplers);
        CHECK(a.error() == Error::None && a->samplers[0].wrapS == s && a->samplers[0].wrapT == t);
    }
}
'''
