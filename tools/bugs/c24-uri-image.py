prop = "C24"
needs = "an image with a URI before an image in memory"
breaks = "an image that is given by a URI gets no path entry, so that later images are written to other paths"
edits = [("src/fastgltf.cpp", '''					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
				}
                imagePaths.emplace_back(std::nullopt);
''', '''					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
					imagePaths.emplace_back(std::nullopt);
				}
''')]
main = r'''
int main() {
    Asset a;
    a.images.emplace_back(); a.images.emplace_back();
    sources::URI u; u.uri = URI(std::string_view("x.png")); u.mimeType = MimeType::None; a.images[0].data = u;
    sources::Vector v; v.bytes.resize(4); v.mimeType = MimeType::PNG; a.images[1].data = v;
    Exporter e;
    auto r = e.writeGltfJson(a, ExportOptions::None);
    CHECK(r.error() == Error::None);
    CHECK(r->imagePaths.size() == 2);
    CHECK(!r->imagePaths[0].has_value() && r->imagePaths[1].has_value());
}
'''
