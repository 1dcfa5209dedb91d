prop = "C14"
needs = "a URI whose query holds percent escapes and is followed by a fragment, copied from a view"
breaks = "only the path is looked at to tell whether decoding moved the text, so the fragment keeps its old offset and lies outside of the shorter text"
edits = [("src/fastgltf.cpp", "\tauto oldSize = uri.size();\n\tdecodePercents(uri);\n\tif (uri.size() == oldSize) {\n\t\treadjustViews(view);", "\tdecodePercents(uri);\n\tif (view._path.find('%') == std::string_view::npos) {\n\t\treadjustViews(view);")]
main = r'''
int main() {
    URIView v("a?%20%20%20#fragment");
    URI u(v);
    CHECK(u.fragment().data() + u.fragment().size() <= u.string().data() + u.string().size());
    CHECK(u.fragment() == "fragment");
}
'''
