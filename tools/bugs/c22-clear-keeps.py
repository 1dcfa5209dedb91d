prop = "C22"
needs = "a vector that has grown onto the heap, cleared and then destroyed or grown again, with an allocator that looks at the size it is given back"
breaks = "clear() keeps the heap block but claims the capacity of the own storage, so the block is later released with another size than it was allocated with"
edits = [("include/fastgltf/types.hpp", "\t\t\tif (!isUsingStack()) {\n\t\t\t\tallocator.deallocate(_data, _capacity);\n\t\t\t\t_data = reinterpret_cast<T*>(storage.data());\n\t\t\t\t_capacity = N;\n\t\t\t}\n\n\t\t\t_size = 0;", "\t\t\tif (!isUsingStack()) {\n\t\t\t\t_capacity = N;\n\t\t\t}\n\n\t\t\t_size = 0;")]
flags = ""
main = r'''
#include <map>
#include <new>
static std::map<void*, std::size_t> blocks;
static bool mismatch = false;
template <typename T> struct Counting {
    using value_type = T;
    Counting() = default;
    template <typename U> Counting(const Counting<U>&) {}
    T* allocate(std::size_t n) { auto* p = static_cast<T*>(::operator new(n * sizeof(T))); blocks[p] = n; return p; }
    void deallocate(T* p, std::size_t n) { if (blocks[p] != n) mismatch = true; blocks.erase(p); ::operator delete(p); }
    friend bool operator==(const Counting&, const Counting&) { return true; }
    friend bool operator!=(const Counting&, const Counting&) { return false; }
};
int main() {
    {
        SmallVector<int, 4, Counting<int>> v;
        for (int i = 0; i < 40; ++i) v.emplace_back(i);
        v.clear();
        for (int i = 0; i < 3; ++i) v.emplace_back(i);
        CHECK(v.size() == 3 && v[2] == 2);
    }
    CHECK(!mismatch);
    CHECK(blocks.empty());
}
'''
