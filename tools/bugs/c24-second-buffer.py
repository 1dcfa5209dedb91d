prop = "C24"
needs = "a GLB export with two or more buffers in vectors"
breaks = "buffers in vectors other than the first one get no path and are lost in a GLB export"
edits = [("src/fastgltf.cpp", '''			[&]([[maybe_unused]] const sources::Vector& vector) {
				if (bufferIdx == 0 && exportingBinary) {''', '''			[&]([[maybe_unused]] const sources::Vector& vector) {
				if (exportingBinary) {''')]
main = r'''
int main() {
    Asset a;
    a.buffers.emplace_back(); a.buffers.emplace_back();
    for (auto& b : a.buffers) { sources::Vector v; v.bytes.resize(4); b.data = v; b.byteLength = 4; }
    Exporter e;
    auto r = e.writeGltfBinary(a, ExportOptions::None);
    CHECK(r.error() == Error::None);
    CHECK(r->bufferPaths.size() == 2 && r->bufferPaths[1].has_value());
}
'''
