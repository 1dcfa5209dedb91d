prop = "C06"
needs = "pretty printing an asset with a string value that contains a comma or bracket"
breaks = "the pretty printer takes the end of a string for its beginning and changes the text of later strings"
edits = [("src/fastgltf.cpp", """            ++i; // Skip over the last "
        }
""", """            ++i; // Skip over the last "
            if (json[i] == ':') ++i;
            if (json[i] == '"') ++i; // The value starts right away.
        }
""")]
main = r'''
int main() {
    Asset asset;
    asset.assetInfo.emplace();
    asset.assetInfo->gltfVersion = "2.0";
    asset.assetInfo->generator = "a,b";
    asset.nodes.emplace_back();
    asset.nodes[0].name = "x{y,z}";
    Exporter e;
    auto r = e.writeGltfJson(asset, ExportOptions::PrettyPrintJson);
    CHECK(r.error() == Error::None);
    CHECK(r->output.find("\"a,b\"") != std::string::npos);
    CHECK(r->output.find("\"x{y,z}\"") != std::string::npos);
    auto a = load(r->output);
    CHECK(a.error() == Error::None && a->nodes[0].name == "x{y,z}");
}
'''
