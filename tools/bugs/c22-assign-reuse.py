prop = "C22"
needs = "assigning a number of equal values to a vector of elements with a destructor that holds another number of elements"
breaks = "assign() reuses the storage without destroying the surplus elements or constructing the missing ones"
edits = [("include/fastgltf/types.hpp", "\t\tvoid assign(std::size_t count, const T& value) {\n\t\t\tclear();\n\t\t\tresize(count, value);", "\t\tvoid assign(std::size_t count, const T& value) {\n\t\t\tif (count <= size()) {\n\t\t\t\t// There are enough elements already, so there's no need to reallocate.\n\t\t\t\tstd::fill_n(begin(), count, value);\n\t\t\t\t_size = count;\n\t\t\t\treturn;\n\t\t\t}\n\t\t\tclear();\n\t\t\tresize(count, value);")]
flags = ""
main = r'''
static int alive = 0;
struct Counted {
    Counted() { ++alive; }
    Counted(const Counted&) { ++alive; }
    Counted(Counted&&) noexcept { ++alive; }
    Counted& operator=(const Counted&) { return *this; }
    ~Counted() { --alive; }
};
int main() {
    {
        SmallVector<Counted, 2> v;
        v.resize(6);
        CHECK(alive == 6);
        Counted c;
        v.assign(2, c);
        CHECK(alive == 3);
    }
    CHECK(alive == 0);
}
'''
