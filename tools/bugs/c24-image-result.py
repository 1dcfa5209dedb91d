prop = "C24"
needs = "an image file that cannot be written"
breaks = "only the result of the last image is reported"
edits = [("src/fastgltf.cpp", '''				if (!writeFile(asset.images[i].data, baseFolder, path.value()))
					return false;
			}
		}
		return true;''', '''				written = writeFile(asset.images[i].data, baseFolder, path.value());
			}
		}
		return written;'''), ("src/fastgltf.cpp", '''		for (std::size_t i = 0; i < asset.images.size(); ++i) {
			auto& path = result.imagePaths[i];''', '''		bool written = true;
		for (std::size_t i = 0; i < asset.images.size(); ++i) {
			auto& path = result.imagePaths[i];''')]
main = r'''
int main() {
    auto dir = std::filesystem::current_path() / "fgdemo_c24i";
    std::filesystem::create_directories(dir / "image0.png");
    Asset a;
    a.images.emplace_back(); a.images.emplace_back();
    for (auto& i : a.images) { sources::Vector v; v.bytes.resize(4); v.mimeType = MimeType::PNG; i.data = v; }
    FileExporter e;
    auto r = e.writeGltfJson(a, dir / "a.gltf", ExportOptions::None);
    std::filesystem::remove_all(dir);
    CHECK(r != Error::None);
}
'''
