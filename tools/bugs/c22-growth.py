prop = "C22"
needs = "growing a vector to a number of elements that is not a power of two and then filling it up to its capacity"
breaks = "the block is allocated with the requested size, but the vector claims the rounded-up capacity, so elements are constructed behind the block"
edits = [("include/fastgltf/types.hpp", "            newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));\n\n\t\t\tT* alloc = allocator.allocate(newCapacity);\n", "            const auto grownCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));\n\n\t\t\tT* alloc = allocator.allocate(newCapacity);\n"),
 ("include/fastgltf/types.hpp", "            _data = alloc;\n            _capacity = newCapacity;", "            _data = alloc;\n            _capacity = grownCapacity;")]
flags = "-fsanitize=address"
main = r'''
int main() {
    SmallVector<int, 4> v;
    v.resize(33);
    while (v.size() < v.capacity()) v.emplace_back(7); // AddressSanitizer reports the element behind the block.
    CHECK(v.size() >= 33);
}
'''
