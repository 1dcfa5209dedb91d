// Layout stand-ins for the DirectXMath types (row-major matrices), which are not installed here.
#pragma once
#include <cstdint>
namespace DirectX {
struct XMFLOAT2 { float x, y; }; struct XMFLOAT3 { float x, y, z; }; struct XMFLOAT4 { float x, y, z, w; };
struct XMUINT2 { std::uint32_t x, y; }; struct XMUINT3 { std::uint32_t x, y, z; }; struct XMUINT4 { std::uint32_t x, y, z, w; };
struct XMINT2 { std::int32_t x, y; }; struct XMINT3 { std::int32_t x, y, z; }; struct XMINT4 { std::int32_t x, y, z, w; };
struct XMFLOAT3X3 { float m[3][3]; }; struct XMFLOAT4X4 { float m[4][4]; };
namespace PackedVector {
struct XMBYTE2 { std::int8_t x, y; }; struct XMBYTE4 { std::int8_t x, y, z, w; };
struct XMUBYTE2 { std::uint8_t x, y; }; struct XMUBYTE4 { std::uint8_t x, y, z, w; };
struct XMSHORT2 { std::int16_t x, y; }; struct XMSHORT4 { std::int16_t x, y, z, w; };
struct XMUSHORT2 { std::uint16_t x, y; }; struct XMUSHORT4 { std::uint16_t x, y, z, w; };
}
}
