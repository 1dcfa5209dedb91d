// Witnesses of C21: element traits describe the types they are declared for.
#include <type_traits>
#include <DirectXMath.h>
#include <DirectXPackedVector.h>
#include <fastgltf/dxmath_element_traits.hpp>
#define W(id, ...) static_assert((__VA_ARGS__), "WITNESS " id);
using namespace fastgltf;
template <typename T, AccessorType A, typename C, ComponentType E, std::size_t N, bool transposed = false>
constexpr bool traits() {
	using Tr = ElementTraits<T>;
	return std::is_same_v<typename Tr::element_type, T> && std::is_same_v<typename Tr::component_type, C> && Tr::type == A && Tr::enum_component_type == E
		&& Tr::needs_transpose == transposed && getNumComponents(Tr::type) == N && sizeof(T) == N * sizeof(C) && getComponentByteSize(E) == sizeof(C);
}
W("traits of DirectX::XMFLOAT2", traits<DirectX::XMFLOAT2, AccessorType::Vec2, float, ComponentType::Float, 2, false>())
W("traits of DirectX::XMUINT2", traits<DirectX::XMUINT2, AccessorType::Vec2, std::uint32_t, ComponentType::UnsignedInt, 2, false>())
W("traits of DirectX::XMFLOAT3", traits<DirectX::XMFLOAT3, AccessorType::Vec3, float, ComponentType::Float, 3, false>())
W("traits of DirectX::XMUINT3", traits<DirectX::XMUINT3, AccessorType::Vec3, std::uint32_t, ComponentType::UnsignedInt, 3, false>())
W("traits of DirectX::XMFLOAT4", traits<DirectX::XMFLOAT4, AccessorType::Vec4, float, ComponentType::Float, 4, false>())
W("traits of DirectX::XMUINT4", traits<DirectX::XMUINT4, AccessorType::Vec4, std::uint32_t, ComponentType::UnsignedInt, 4, false>())
W("traits of DirectX::PackedVector::XMBYTE2", traits<DirectX::PackedVector::XMBYTE2, AccessorType::Vec2, std::int8_t, ComponentType::Byte, 2, false>())
W("traits of DirectX::PackedVector::XMBYTE4", traits<DirectX::PackedVector::XMBYTE4, AccessorType::Vec4, std::int8_t, ComponentType::Byte, 4, false>())
W("traits of DirectX::PackedVector::XMUBYTE2", traits<DirectX::PackedVector::XMUBYTE2, AccessorType::Vec2, std::uint8_t, ComponentType::UnsignedByte, 2, false>())
W("traits of DirectX::PackedVector::XMUBYTE4", traits<DirectX::PackedVector::XMUBYTE4, AccessorType::Vec4, std::uint8_t, ComponentType::UnsignedByte, 4, false>())
W("traits of DirectX::PackedVector::XMSHORT2", traits<DirectX::PackedVector::XMSHORT2, AccessorType::Vec2, std::int16_t, ComponentType::Short, 2, false>())
W("traits of DirectX::PackedVector::XMSHORT4", traits<DirectX::PackedVector::XMSHORT4, AccessorType::Vec4, std::int16_t, ComponentType::Short, 4, false>())
W("traits of DirectX::PackedVector::XMUSHORT2", traits<DirectX::PackedVector::XMUSHORT2, AccessorType::Vec2, std::uint16_t, ComponentType::UnsignedShort, 2, false>())
W("traits of DirectX::PackedVector::XMUSHORT4", traits<DirectX::PackedVector::XMUSHORT4, AccessorType::Vec4, std::uint16_t, ComponentType::UnsignedShort, 4, false>())
W("traits of DirectX::XMFLOAT3X3", traits<DirectX::XMFLOAT3X3, AccessorType::Mat3, float, ComponentType::Float, 9, true>())
W("traits of DirectX::XMFLOAT4X4", traits<DirectX::XMFLOAT4X4, AccessorType::Mat4, float, ComponentType::Float, 16, true>())
