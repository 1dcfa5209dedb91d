prop = "C11"
needs = "a binary export that succeeds after one with the same exporter that failed once the image paths had been collected"
breaks = "the image paths a failed export collected are returned with the next export"
edits = [("src/fastgltf.cpp", '''fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
    bufferPaths.clear();
    imagePaths.clear();
''', '''fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
    // The paths of the images have been moved into the previous result.
    bufferPaths.clear();
''')]
main = r'''
int main() {
    
    auto image = [&](Asset& a) { a.images.emplace_back(); sources::Vector v; v.bytes.resize(4); v.mimeType = MimeType::PNG; a.images.back().data = v; };
    Asset bad; image(bad); image(bad); bad.images.emplace_back();
    Asset good; image(good);
    Exporter e;
    auto r0 = e.writeGltfBinary(bad);
    CHECK(r0.error() != Error::None);
    auto r = e.writeGltfBinary(good);
    CHECK(r.error() == Error::None);
    CHECK(r->imagePaths.size() == 1);
}
'''
