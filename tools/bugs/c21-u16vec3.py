prop = "C21"
needs = "reading normalized float colours into fastgltf::math::u16vec3"
breaks = "the traits of u16vec3 name a signed component type, so values are converted to the wrong range"
edits = [("include/fastgltf/tools.hpp", "ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t>", "ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::int16_t>")]
main = r'''
template <typename T> bool describes() {
    using Traits = ElementTraits<T>;
    return std::is_same_v<typename Traits::component_type, std::decay_t<decltype(std::declval<T>()[0])>> && getElementByteSize(Traits::type, Traits::enum_component_type) == sizeof(T)
        && getComponentByteSize(Traits::enum_component_type) * getNumComponents(Traits::type) == sizeof(T);
}
int main() {
    CHECK(describes<math::u16vec2>() && describes<math::u16vec3>() && describes<math::u16vec4>());
    CHECK(describes<math::s16vec3>() && describes<math::u8vec3>() && describes<math::u32vec3>());
    CHECK(ElementTraits<math::u16vec3>::enum_component_type == ComponentType::UnsignedShort);
}
'''
