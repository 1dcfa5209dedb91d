prop = "C24"
needs = "a GLB export of an asset whose second buffer was mapped by a callback (CustomBuffer)"
breaks = "a buffer that cannot be exported is only reported for the JSON export"
edits = [("src/fastgltf.cpp", '''				// Covers BufferView and CustomBuffer.
				errorCode = Error::InvalidGltf;
''', '''				// Covers BufferView and CustomBuffer.
				if (!exportingBinary)
					errorCode = Error::InvalidGltf;
''')]
main = r'''
int main() {
    Asset a;
    a.buffers.emplace_back(); a.buffers.emplace_back();
    sources::Vector v; v.bytes.resize(4); a.buffers[0].data = v; a.buffers[0].byteLength = 4;
    sources::CustomBuffer c; c.id = 1; a.buffers[1].data = c; a.buffers[1].byteLength = 4;
    Exporter e;
    auto r = e.writeGltfBinary(a, ExportOptions::None);
    CHECK(r.error() != Error::None || r->bufferPaths.size() == 2);
}
'''
