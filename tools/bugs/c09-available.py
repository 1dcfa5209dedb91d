prop = "C09"
needs = "a load without some category of a document that has that category, whose result is asked which categories are available"
breaks = "all categories of the document are reported as available"
edits = [("src/fastgltf.cpp", '''			KEY_SWITCH_CASE(Skins, skins)
''', '''			case force_consteval<crc32c("skins")>:
				if (hasBit(categories, Category::Skins | Category::Nodes)) {
					error = parseSkins(array, asset);
					readCategories |= Category::Nodes;
				}
				break;
''')]
main = r'''
int main() {
    const char* doc = R"({"asset":{"version":"2.0"},"nodes":[{"skin":0}],"skins":[{"joints":[0]}]})";
    auto a = load(doc, Extensions::None, Options::None, Category::Nodes);
    CHECK(a.error() == Error::None);
    CHECK(a->skins.size() == 1);
    CHECK(hasBit(a->availableCategories, Category::Skins) && hasBit(a->availableCategories, Category::Nodes));
}
'''
