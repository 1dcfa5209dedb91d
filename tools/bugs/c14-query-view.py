prop = "C14"
needs = "a URI with a '#' before its '?' (for instance a file name holding both)"
breaks = "the query is made without substr's clamping, so its length wraps around and the view reaches far outside of the text"
edits = [("src/fastgltf.cpp", "\t\t\t\t_query = view.substr(questionIdx, hashIdx - questionIdx);\n", "\t\t\t\t_query = std::string_view(view.data() + questionIdx, hashIdx - questionIdx);\n")]
main = r'''
int main() {
    URIView v("model#1?2.bin");
    CHECK(v.query().size() <= v.string().size());
    URIView w("model?2#1.bin");
    CHECK(w.query() == "2");
}
'''
