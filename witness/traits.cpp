// Witnesses of C21: element traits describe the types they are declared for.
#include <type_traits>
#include <fastgltf/tools.hpp>
#define W(id, ...) static_assert((__VA_ARGS__), "WITNESS " id);
using namespace fastgltf;
template <typename T, AccessorType A, typename C, ComponentType E, std::size_t N, bool transposed = false>
constexpr bool traits() {
	using Tr = ElementTraits<T>;
	return std::is_same_v<typename Tr::element_type, T> && std::is_same_v<typename Tr::component_type, C> && Tr::type == A && Tr::enum_component_type == E
		&& Tr::needs_transpose == transposed && getNumComponents(Tr::type) == N && sizeof(T) == N * sizeof(C) && getComponentByteSize(E) == sizeof(C);
}
W("traits of std::int8_t", traits<std::int8_t, AccessorType::Scalar, std::int8_t, ComponentType::Byte, 1, false>())
W("traits of std::uint8_t", traits<std::uint8_t, AccessorType::Scalar, std::uint8_t, ComponentType::UnsignedByte, 1, false>())
W("traits of std::int16_t", traits<std::int16_t, AccessorType::Scalar, std::int16_t, ComponentType::Short, 1, false>())
W("traits of std::uint16_t", traits<std::uint16_t, AccessorType::Scalar, std::uint16_t, ComponentType::UnsignedShort, 1, false>())
W("traits of std::int32_t", traits<std::int32_t, AccessorType::Scalar, std::int32_t, ComponentType::Int, 1, false>())
W("traits of std::uint32_t", traits<std::uint32_t, AccessorType::Scalar, std::uint32_t, ComponentType::UnsignedInt, 1, false>())
W("traits of float", traits<float, AccessorType::Scalar, float, ComponentType::Float, 1, false>())
W("traits of double", traits<double, AccessorType::Scalar, double, ComponentType::Double, 1, false>())
W("traits of math::s8vec2", traits<math::s8vec2, AccessorType::Vec2, std::int8_t, ComponentType::Byte, 2, false>())
W("traits of math::s8vec3", traits<math::s8vec3, AccessorType::Vec3, std::int8_t, ComponentType::Byte, 3, false>())
W("traits of math::s8vec4", traits<math::s8vec4, AccessorType::Vec4, std::int8_t, ComponentType::Byte, 4, false>())
W("traits of math::u8vec2", traits<math::u8vec2, AccessorType::Vec2, std::uint8_t, ComponentType::UnsignedByte, 2, false>())
W("traits of math::u8vec3", traits<math::u8vec3, AccessorType::Vec3, std::uint8_t, ComponentType::UnsignedByte, 3, false>())
W("traits of math::u8vec4", traits<math::u8vec4, AccessorType::Vec4, std::uint8_t, ComponentType::UnsignedByte, 4, false>())
W("traits of math::s16vec2", traits<math::s16vec2, AccessorType::Vec2, std::int16_t, ComponentType::Short, 2, false>())
W("traits of math::s16vec3", traits<math::s16vec3, AccessorType::Vec3, std::int16_t, ComponentType::Short, 3, false>())
W("traits of math::s16vec4", traits<math::s16vec4, AccessorType::Vec4, std::int16_t, ComponentType::Short, 4, false>())
W("traits of math::u16vec2", traits<math::u16vec2, AccessorType::Vec2, std::uint16_t, ComponentType::UnsignedShort, 2, false>())
W("traits of math::u16vec3", traits<math::u16vec3, AccessorType::Vec3, std::uint16_t, ComponentType::UnsignedShort, 3, false>())
W("traits of math::u16vec4", traits<math::u16vec4, AccessorType::Vec4, std::uint16_t, ComponentType::UnsignedShort, 4, false>())
W("traits of math::s32vec2", traits<math::s32vec2, AccessorType::Vec2, std::int32_t, ComponentType::Int, 2, false>())
W("traits of math::s32vec3", traits<math::s32vec3, AccessorType::Vec3, std::int32_t, ComponentType::Int, 3, false>())
W("traits of math::s32vec4", traits<math::s32vec4, AccessorType::Vec4, std::int32_t, ComponentType::Int, 4, false>())
W("traits of math::u32vec2", traits<math::u32vec2, AccessorType::Vec2, std::uint32_t, ComponentType::UnsignedInt, 2, false>())
W("traits of math::u32vec3", traits<math::u32vec3, AccessorType::Vec3, std::uint32_t, ComponentType::UnsignedInt, 3, false>())
W("traits of math::u32vec4", traits<math::u32vec4, AccessorType::Vec4, std::uint32_t, ComponentType::UnsignedInt, 4, false>())
W("traits of math::fvec2", traits<math::fvec2, AccessorType::Vec2, float, ComponentType::Float, 2, false>())
W("traits of math::fvec3", traits<math::fvec3, AccessorType::Vec3, float, ComponentType::Float, 3, false>())
W("traits of math::fvec4", traits<math::fvec4, AccessorType::Vec4, float, ComponentType::Float, 4, false>())
W("traits of math::dvec2", traits<math::dvec2, AccessorType::Vec2, double, ComponentType::Double, 2, false>())
W("traits of math::dvec3", traits<math::dvec3, AccessorType::Vec3, double, ComponentType::Double, 3, false>())
W("traits of math::dvec4", traits<math::dvec4, AccessorType::Vec4, double, ComponentType::Double, 4, false>())
W("traits of math::fquat", traits<math::fquat, AccessorType::Vec4, float, ComponentType::Float, 4, false>())
W("traits of math::dquat", traits<math::dquat, AccessorType::Vec4, double, ComponentType::Double, 4, false>())
W("traits of math::fmat2x2", traits<math::fmat2x2, AccessorType::Mat2, float, ComponentType::Float, 4, false>())
W("traits of math::fmat3x3", traits<math::fmat3x3, AccessorType::Mat3, float, ComponentType::Float, 9, false>())
W("traits of math::fmat4x4", traits<math::fmat4x4, AccessorType::Mat4, float, ComponentType::Float, 16, false>())
W("component type of std::int8_t", ComponentTypeConverter<std::int8_t>::type == ComponentType::Byte)
W("component type of std::uint8_t", ComponentTypeConverter<std::uint8_t>::type == ComponentType::UnsignedByte)
W("component type of std::int16_t", ComponentTypeConverter<std::int16_t>::type == ComponentType::Short)
W("component type of std::uint16_t", ComponentTypeConverter<std::uint16_t>::type == ComponentType::UnsignedShort)
W("component type of std::int32_t", ComponentTypeConverter<std::int32_t>::type == ComponentType::Int)
W("component type of std::uint32_t", ComponentTypeConverter<std::uint32_t>::type == ComponentType::UnsignedInt)
W("component type of float", ComponentTypeConverter<float>::type == ComponentType::Float)
W("component type of double", ComponentTypeConverter<double>::type == ComponentType::Double)
W("rows of Scalar", getElementRowCount(AccessorType::Scalar) == 1)
W("matrix Scalar", isMatrix(AccessorType::Scalar) == false)
W("rows of Vec2", getElementRowCount(AccessorType::Vec2) == 2)
W("matrix Vec2", isMatrix(AccessorType::Vec2) == false)
W("rows of Vec3", getElementRowCount(AccessorType::Vec3) == 3)
W("matrix Vec3", isMatrix(AccessorType::Vec3) == false)
W("rows of Vec4", getElementRowCount(AccessorType::Vec4) == 4)
W("matrix Vec4", isMatrix(AccessorType::Vec4) == false)
W("rows of Mat2", getElementRowCount(AccessorType::Mat2) == 2)
W("matrix Mat2", isMatrix(AccessorType::Mat2) == true)
W("rows of Mat3", getElementRowCount(AccessorType::Mat3) == 3)
W("matrix Mat3", isMatrix(AccessorType::Mat3) == true)
W("rows of Mat4", getElementRowCount(AccessorType::Mat4) == 4)
W("matrix Mat4", isMatrix(AccessorType::Mat4) == true)
W("element size Scalar of Byte", getElementByteSize(AccessorType::Scalar, ComponentType::Byte) == 1)
W("element size Scalar of UnsignedByte", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedByte) == 1)
W("element size Scalar of Short", getElementByteSize(AccessorType::Scalar, ComponentType::Short) == 2)
W("element size Scalar of UnsignedShort", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedShort) == 2)
W("element size Scalar of Int", getElementByteSize(AccessorType::Scalar, ComponentType::Int) == 4)
W("element size Scalar of UnsignedInt", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedInt) == 4)
W("element size Scalar of Float", getElementByteSize(AccessorType::Scalar, ComponentType::Float) == 4)
W("element size Scalar of Double", getElementByteSize(AccessorType::Scalar, ComponentType::Double) == 8)
W("element size Vec2 of Byte", getElementByteSize(AccessorType::Vec2, ComponentType::Byte) == 2)
W("element size Vec2 of UnsignedByte", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedByte) == 2)
W("element size Vec2 of Short", getElementByteSize(AccessorType::Vec2, ComponentType::Short) == 4)
W("element size Vec2 of UnsignedShort", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedShort) == 4)
W("element size Vec2 of Int", getElementByteSize(AccessorType::Vec2, ComponentType::Int) == 8)
W("element size Vec2 of UnsignedInt", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedInt) == 8)
W("element size Vec2 of Float", getElementByteSize(AccessorType::Vec2, ComponentType::Float) == 8)
W("element size Vec2 of Double", getElementByteSize(AccessorType::Vec2, ComponentType::Double) == 16)
W("element size Vec3 of Byte", getElementByteSize(AccessorType::Vec3, ComponentType::Byte) == 3)
W("element size Vec3 of UnsignedByte", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedByte) == 3)
W("element size Vec3 of Short", getElementByteSize(AccessorType::Vec3, ComponentType::Short) == 6)
W("element size Vec3 of UnsignedShort", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedShort) == 6)
W("element size Vec3 of Int", getElementByteSize(AccessorType::Vec3, ComponentType::Int) == 12)
W("element size Vec3 of UnsignedInt", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedInt) == 12)
W("element size Vec3 of Float", getElementByteSize(AccessorType::Vec3, ComponentType::Float) == 12)
W("element size Vec3 of Double", getElementByteSize(AccessorType::Vec3, ComponentType::Double) == 24)
W("element size Vec4 of Byte", getElementByteSize(AccessorType::Vec4, ComponentType::Byte) == 4)
W("element size Vec4 of UnsignedByte", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedByte) == 4)
W("element size Vec4 of Short", getElementByteSize(AccessorType::Vec4, ComponentType::Short) == 8)
W("element size Vec4 of UnsignedShort", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedShort) == 8)
W("element size Vec4 of Int", getElementByteSize(AccessorType::Vec4, ComponentType::Int) == 16)
W("element size Vec4 of UnsignedInt", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedInt) == 16)
W("element size Vec4 of Float", getElementByteSize(AccessorType::Vec4, ComponentType::Float) == 16)
W("element size Vec4 of Double", getElementByteSize(AccessorType::Vec4, ComponentType::Double) == 32)
W("element size Mat2 of Byte", getElementByteSize(AccessorType::Mat2, ComponentType::Byte) == 8)
W("element size Mat2 of UnsignedByte", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedByte) == 8)
W("element size Mat2 of Short", getElementByteSize(AccessorType::Mat2, ComponentType::Short) == 8)
W("element size Mat2 of UnsignedShort", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedShort) == 8)
W("element size Mat2 of Int", getElementByteSize(AccessorType::Mat2, ComponentType::Int) == 16)
W("element size Mat2 of UnsignedInt", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedInt) == 16)
W("element size Mat2 of Float", getElementByteSize(AccessorType::Mat2, ComponentType::Float) == 16)
W("element size Mat2 of Double", getElementByteSize(AccessorType::Mat2, ComponentType::Double) == 32)
W("element size Mat3 of Byte", getElementByteSize(AccessorType::Mat3, ComponentType::Byte) == 12)
W("element size Mat3 of UnsignedByte", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedByte) == 12)
W("element size Mat3 of Short", getElementByteSize(AccessorType::Mat3, ComponentType::Short) == 24)
W("element size Mat3 of UnsignedShort", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedShort) == 24)
W("element size Mat3 of Int", getElementByteSize(AccessorType::Mat3, ComponentType::Int) == 36)
W("element size Mat3 of UnsignedInt", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedInt) == 36)
W("element size Mat3 of Float", getElementByteSize(AccessorType::Mat3, ComponentType::Float) == 36)
W("element size Mat3 of Double", getElementByteSize(AccessorType::Mat3, ComponentType::Double) == 72)
W("element size Mat4 of Byte", getElementByteSize(AccessorType::Mat4, ComponentType::Byte) == 16)
W("element size Mat4 of UnsignedByte", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedByte) == 16)
W("element size Mat4 of Short", getElementByteSize(AccessorType::Mat4, ComponentType::Short) == 32)
W("element size Mat4 of UnsignedShort", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedShort) == 32)
W("element size Mat4 of Int", getElementByteSize(AccessorType::Mat4, ComponentType::Int) == 64)
W("element size Mat4 of UnsignedInt", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedInt) == 64)
W("element size Mat4 of Float", getElementByteSize(AccessorType::Mat4, ComponentType::Float) == 64)
W("element size Mat4 of Double", getElementByteSize(AccessorType::Mat4, ComponentType::Double) == 128)
