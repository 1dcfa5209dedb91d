prop = "C26"
needs = "the SSE decoder and an encoded text whose length is a multiple of 16"
breaks = "the last block is decoded with 16-byte stores too, which writes behind the output, and nothing is left for the portable decoder, which then reads in front of the text"
edits = [("src/base64.cpp", "    while ((pos + dataSetSize) < alignedSize) {\n        auto in = _mm_loadu_si128", "    while (pos < alignedSize) {\n        auto in = _mm_loadu_si128")]
link = "_build/libfastgltf.a -lsimdjson"
main = r'''
#include <fastgltf/base64.hpp>
int main() {
    std::string text(48, 'A');
    std::vector<std::uint8_t> out(36 + 64, 0xee);
    base64::sse4_decode_inplace(text, out.data(), 0);
    for (std::size_t i = 0; i < 36; ++i) CHECK(out[i] == 0);
    for (std::size_t i = 36; i < out.size(); ++i) CHECK(out[i] == 0xee);
}
'''
