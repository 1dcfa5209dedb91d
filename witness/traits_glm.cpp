// Witnesses of C21: element traits describe the types they are declared for.
#include <type_traits>
#include <fastgltf/glm_element_traits.hpp>
#include <glm/gtc/type_precision.hpp>
#define W(id, ...) static_assert((__VA_ARGS__), "WITNESS " id);
using namespace fastgltf;
template <typename T, AccessorType A, typename C, ComponentType E, std::size_t N, bool transposed = false>
constexpr bool traits() {
	using Tr = ElementTraits<T>;
	return std::is_same_v<typename Tr::element_type, T> && std::is_same_v<typename Tr::component_type, C> && Tr::type == A && Tr::enum_component_type == E
		&& Tr::needs_transpose == transposed && getNumComponents(Tr::type) == N && sizeof(T) == N * sizeof(C) && getComponentByteSize(E) == sizeof(C);
}
W("traits of glm::i8vec2", traits<glm::i8vec2, AccessorType::Vec2, std::int8_t, ComponentType::Byte, 2, false>())
W("traits of glm::i8vec3", traits<glm::i8vec3, AccessorType::Vec3, std::int8_t, ComponentType::Byte, 3, false>())
W("traits of glm::i8vec4", traits<glm::i8vec4, AccessorType::Vec4, std::int8_t, ComponentType::Byte, 4, false>())
W("traits of glm::u8vec2", traits<glm::u8vec2, AccessorType::Vec2, std::uint8_t, ComponentType::UnsignedByte, 2, false>())
W("traits of glm::u8vec3", traits<glm::u8vec3, AccessorType::Vec3, std::uint8_t, ComponentType::UnsignedByte, 3, false>())
W("traits of glm::u8vec4", traits<glm::u8vec4, AccessorType::Vec4, std::uint8_t, ComponentType::UnsignedByte, 4, false>())
W("traits of glm::i16vec2", traits<glm::i16vec2, AccessorType::Vec2, std::int16_t, ComponentType::Short, 2, false>())
W("traits of glm::i16vec3", traits<glm::i16vec3, AccessorType::Vec3, std::int16_t, ComponentType::Short, 3, false>())
W("traits of glm::i16vec4", traits<glm::i16vec4, AccessorType::Vec4, std::int16_t, ComponentType::Short, 4, false>())
W("traits of glm::u16vec2", traits<glm::u16vec2, AccessorType::Vec2, std::uint16_t, ComponentType::UnsignedShort, 2, false>())
W("traits of glm::u16vec3", traits<glm::u16vec3, AccessorType::Vec3, std::uint16_t, ComponentType::UnsignedShort, 3, false>())
W("traits of glm::u16vec4", traits<glm::u16vec4, AccessorType::Vec4, std::uint16_t, ComponentType::UnsignedShort, 4, false>())
W("traits of glm::u32vec2", traits<glm::u32vec2, AccessorType::Vec2, std::uint32_t, ComponentType::UnsignedInt, 2, false>())
W("traits of glm::u32vec3", traits<glm::u32vec3, AccessorType::Vec3, std::uint32_t, ComponentType::UnsignedInt, 3, false>())
W("traits of glm::u32vec4", traits<glm::u32vec4, AccessorType::Vec4, std::uint32_t, ComponentType::UnsignedInt, 4, false>())
W("traits of glm::vec2", traits<glm::vec2, AccessorType::Vec2, float, ComponentType::Float, 2, false>())
W("traits of glm::vec3", traits<glm::vec3, AccessorType::Vec3, float, ComponentType::Float, 3, false>())
W("traits of glm::vec4", traits<glm::vec4, AccessorType::Vec4, float, ComponentType::Float, 4, false>())
W("traits of glm::mat2", traits<glm::mat2, AccessorType::Mat2, float, ComponentType::Float, 4, false>())
W("traits of glm::mat3", traits<glm::mat3, AccessorType::Mat3, float, ComponentType::Float, 9, false>())
W("traits of glm::mat4", traits<glm::mat4, AccessorType::Mat4, float, ComponentType::Float, 16, false>())
