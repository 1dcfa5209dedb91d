// Witnesses of C05: names and numbers of the tables in the public headers. One W per line.
#include <fastgltf/core.hpp>
#define W(id, ...) static_assert((__VA_ARGS__), "WITNESS " id);
using namespace fastgltf;
constexpr bool listed(std::string_view name, Extensions e) {
	std::size_t n = 0, m = 0;
	for (const auto& p : extensionStrings) { if (p.first == name) { ++n; if (p.second == e) ++m; } }
	return n == 1 && m == 1;
}
constexpr bool single(Extensions e) { auto v = static_cast<std::uint64_t>(e); return v != 0 && (v & (v - 1)) == 0; }
constexpr bool distinct() {
	std::uint64_t seen = 0;
	for (const auto& p : extensionStrings) { auto v = static_cast<std::uint64_t>(p.second); if (v == 0 || (v & (v - 1)) != 0 || (seen & v) != 0) return false; seen |= v; }
	return true;
}
W("extension table: distinct flags", distinct())
W("extension name KHR_texture_transform", std::string_view(extensions::KHR_texture_transform) == "KHR_texture_transform")
W("extension table KHR_texture_transform", listed("KHR_texture_transform", Extensions::KHR_texture_transform) && single(Extensions::KHR_texture_transform))
W("extension name KHR_texture_basisu", std::string_view(extensions::KHR_texture_basisu) == "KHR_texture_basisu")
W("extension table KHR_texture_basisu", listed("KHR_texture_basisu", Extensions::KHR_texture_basisu) && single(Extensions::KHR_texture_basisu))
W("extension name MSFT_texture_dds", std::string_view(extensions::MSFT_texture_dds) == "MSFT_texture_dds")
W("extension table MSFT_texture_dds", listed("MSFT_texture_dds", Extensions::MSFT_texture_dds) && single(Extensions::MSFT_texture_dds))
W("extension name KHR_mesh_quantization", std::string_view(extensions::KHR_mesh_quantization) == "KHR_mesh_quantization")
W("extension table KHR_mesh_quantization", listed("KHR_mesh_quantization", Extensions::KHR_mesh_quantization) && single(Extensions::KHR_mesh_quantization))
W("extension name EXT_meshopt_compression", std::string_view(extensions::EXT_meshopt_compression) == "EXT_meshopt_compression")
W("extension table EXT_meshopt_compression", listed("EXT_meshopt_compression", Extensions::EXT_meshopt_compression) && single(Extensions::EXT_meshopt_compression))
W("extension name KHR_lights_punctual", std::string_view(extensions::KHR_lights_punctual) == "KHR_lights_punctual")
W("extension table KHR_lights_punctual", listed("KHR_lights_punctual", Extensions::KHR_lights_punctual) && single(Extensions::KHR_lights_punctual))
W("extension name EXT_texture_webp", std::string_view(extensions::EXT_texture_webp) == "EXT_texture_webp")
W("extension table EXT_texture_webp", listed("EXT_texture_webp", Extensions::EXT_texture_webp) && single(Extensions::EXT_texture_webp))
W("extension name KHR_materials_specular", std::string_view(extensions::KHR_materials_specular) == "KHR_materials_specular")
W("extension table KHR_materials_specular", listed("KHR_materials_specular", Extensions::KHR_materials_specular) && single(Extensions::KHR_materials_specular))
W("extension name KHR_materials_ior", std::string_view(extensions::KHR_materials_ior) == "KHR_materials_ior")
W("extension table KHR_materials_ior", listed("KHR_materials_ior", Extensions::KHR_materials_ior) && single(Extensions::KHR_materials_ior))
W("extension name KHR_materials_iridescence", std::string_view(extensions::KHR_materials_iridescence) == "KHR_materials_iridescence")
W("extension table KHR_materials_iridescence", listed("KHR_materials_iridescence", Extensions::KHR_materials_iridescence) && single(Extensions::KHR_materials_iridescence))
W("extension name KHR_materials_volume", std::string_view(extensions::KHR_materials_volume) == "KHR_materials_volume")
W("extension table KHR_materials_volume", listed("KHR_materials_volume", Extensions::KHR_materials_volume) && single(Extensions::KHR_materials_volume))
W("extension name KHR_materials_transmission", std::string_view(extensions::KHR_materials_transmission) == "KHR_materials_transmission")
W("extension table KHR_materials_transmission", listed("KHR_materials_transmission", Extensions::KHR_materials_transmission) && single(Extensions::KHR_materials_transmission))
W("extension name KHR_materials_clearcoat", std::string_view(extensions::KHR_materials_clearcoat) == "KHR_materials_clearcoat")
W("extension table KHR_materials_clearcoat", listed("KHR_materials_clearcoat", Extensions::KHR_materials_clearcoat) && single(Extensions::KHR_materials_clearcoat))
W("extension name KHR_materials_emissive_strength", std::string_view(extensions::KHR_materials_emissive_strength) == "KHR_materials_emissive_strength")
W("extension table KHR_materials_emissive_strength", listed("KHR_materials_emissive_strength", Extensions::KHR_materials_emissive_strength) && single(Extensions::KHR_materials_emissive_strength))
W("extension name KHR_materials_sheen", std::string_view(extensions::KHR_materials_sheen) == "KHR_materials_sheen")
W("extension table KHR_materials_sheen", listed("KHR_materials_sheen", Extensions::KHR_materials_sheen) && single(Extensions::KHR_materials_sheen))
W("extension name KHR_materials_unlit", std::string_view(extensions::KHR_materials_unlit) == "KHR_materials_unlit")
W("extension table KHR_materials_unlit", listed("KHR_materials_unlit", Extensions::KHR_materials_unlit) && single(Extensions::KHR_materials_unlit))
W("extension name KHR_materials_anisotropy", std::string_view(extensions::KHR_materials_anisotropy) == "KHR_materials_anisotropy")
W("extension table KHR_materials_anisotropy", listed("KHR_materials_anisotropy", Extensions::KHR_materials_anisotropy) && single(Extensions::KHR_materials_anisotropy))
W("extension name EXT_mesh_gpu_instancing", std::string_view(extensions::EXT_mesh_gpu_instancing) == "EXT_mesh_gpu_instancing")
W("extension table EXT_mesh_gpu_instancing", listed("EXT_mesh_gpu_instancing", Extensions::EXT_mesh_gpu_instancing) && single(Extensions::EXT_mesh_gpu_instancing))
W("extension name KHR_materials_pbrSpecularGlossiness", std::string_view(extensions::KHR_materials_pbrSpecularGlossiness) == "KHR_materials_pbrSpecularGlossiness")
W("extension table KHR_materials_pbrSpecularGlossiness", listed("KHR_materials_pbrSpecularGlossiness", Extensions::KHR_materials_pbrSpecularGlossiness) && single(Extensions::KHR_materials_pbrSpecularGlossiness))
W("extension name MSFT_packing_normalRoughnessMetallic", std::string_view(extensions::MSFT_packing_normalRoughnessMetallic) == "MSFT_packing_normalRoughnessMetallic")
W("extension table MSFT_packing_normalRoughnessMetallic", listed("MSFT_packing_normalRoughnessMetallic", Extensions::MSFT_packing_normalRoughnessMetallic) && single(Extensions::MSFT_packing_normalRoughnessMetallic))
W("extension name MSFT_packing_occlusionRoughnessMetallic", std::string_view(extensions::MSFT_packing_occlusionRoughnessMetallic) == "MSFT_packing_occlusionRoughnessMetallic")
W("extension table MSFT_packing_occlusionRoughnessMetallic", listed("MSFT_packing_occlusionRoughnessMetallic", Extensions::MSFT_packing_occlusionRoughnessMetallic) && single(Extensions::MSFT_packing_occlusionRoughnessMetallic))
W("extension name KHR_materials_dispersion", std::string_view(extensions::KHR_materials_dispersion) == "KHR_materials_dispersion")
W("extension table KHR_materials_dispersion", listed("KHR_materials_dispersion", Extensions::KHR_materials_dispersion) && single(Extensions::KHR_materials_dispersion))
W("extension name KHR_materials_variants", std::string_view(extensions::KHR_materials_variants) == "KHR_materials_variants")
W("extension table KHR_materials_variants", listed("KHR_materials_variants", Extensions::KHR_materials_variants) && single(Extensions::KHR_materials_variants))
W("extension name KHR_accessor_float64", std::string_view(extensions::KHR_accessor_float64) == "KHR_accessor_float64")
W("extension table KHR_accessor_float64", listed("KHR_accessor_float64", Extensions::KHR_accessor_float64) && single(Extensions::KHR_accessor_float64))
W("extension name KHR_draco_mesh_compression", std::string_view(extensions::KHR_draco_mesh_compression) == "KHR_draco_mesh_compression")
W("extension table KHR_draco_mesh_compression", listed("KHR_draco_mesh_compression", Extensions::KHR_draco_mesh_compression) && single(Extensions::KHR_draco_mesh_compression))
W("extension name KHR_implicit_shapes", std::string_view(extensions::KHR_implicit_shapes) == "KHR_implicit_shapes")
W("extension table KHR_implicit_shapes", listed("KHR_implicit_shapes", Extensions::KHR_implicit_shapes) && single(Extensions::KHR_implicit_shapes))
W("extension name KHR_physics_rigid_bodies", std::string_view(extensions::KHR_physics_rigid_bodies) == "KHR_physics_rigid_bodies")
W("extension table KHR_physics_rigid_bodies", listed("KHR_physics_rigid_bodies", Extensions::KHR_physics_rigid_bodies) && single(Extensions::KHR_physics_rigid_bodies))
W("extension name GODOT_single_root", std::string_view(extensions::GODOT_single_root) == "GODOT_single_root")
W("extension table GODOT_single_root", listed("GODOT_single_root", Extensions::GODOT_single_root) && single(Extensions::GODOT_single_root))
W("extension name KHR_materials_diffuse_transmission", std::string_view(extensions::KHR_materials_diffuse_transmission) == "KHR_materials_diffuse_transmission")
W("extension table KHR_materials_diffuse_transmission", listed("KHR_materials_diffuse_transmission", Extensions::KHR_materials_diffuse_transmission) && single(Extensions::KHR_materials_diffuse_transmission))
W("extension name KHR_node_visibility", std::string_view(extensions::KHR_node_visibility) == "KHR_node_visibility")
W("extension table KHR_node_visibility", listed("KHR_node_visibility", Extensions::KHR_node_visibility) && single(Extensions::KHR_node_visibility))
W("extension name KHR_node_selectability", std::string_view(extensions::KHR_node_selectability) == "KHR_node_selectability")
W("extension table KHR_node_selectability", listed("KHR_node_selectability", Extensions::KHR_node_selectability) && single(Extensions::KHR_node_selectability))
W("extension name KHR_node_hoverability", std::string_view(extensions::KHR_node_hoverability) == "KHR_node_hoverability")
W("extension table KHR_node_hoverability", listed("KHR_node_hoverability", Extensions::KHR_node_hoverability) && single(Extensions::KHR_node_hoverability))
W("error name None", getErrorName(Error::None) == "None")
W("error name InvalidPath", getErrorName(Error::InvalidPath) == "InvalidPath")
W("error name MissingExtensions", getErrorName(Error::MissingExtensions) == "MissingExtensions")
W("error name UnknownRequiredExtension", getErrorName(Error::UnknownRequiredExtension) == "UnknownRequiredExtension")
W("error name InvalidJson", getErrorName(Error::InvalidJson) == "InvalidJson")
W("error name InvalidGltf", getErrorName(Error::InvalidGltf) == "InvalidGltf")
W("error name InvalidOrMissingAssetField", getErrorName(Error::InvalidOrMissingAssetField) == "InvalidOrMissingAssetField")
W("error name InvalidGLB", getErrorName(Error::InvalidGLB) == "InvalidGLB")
W("error name MissingField", getErrorName(Error::MissingField) == "MissingField")
W("error name MissingExternalBuffer", getErrorName(Error::MissingExternalBuffer) == "MissingExternalBuffer")
W("error name UnsupportedVersion", getErrorName(Error::UnsupportedVersion) == "UnsupportedVersion")
W("error name InvalidURI", getErrorName(Error::InvalidURI) == "InvalidURI")
W("error name InvalidFileData", getErrorName(Error::InvalidFileData) == "InvalidFileData")
W("error name FailedWritingFiles", getErrorName(Error::FailedWritingFiles) == "FailedWritingFiles")
W("error name FileBufferAllocationFailed", getErrorName(Error::FileBufferAllocationFailed) == "FileBufferAllocationFailed")
W("accessor type name Scalar", getAccessorTypeName(AccessorType::Scalar) == "SCALAR")
W("accessor type from SCALAR", getAccessorType("SCALAR") == AccessorType::Scalar)
W("accessor type components Scalar", getNumComponents(AccessorType::Scalar) == 1)
W("accessor type name Vec2", getAccessorTypeName(AccessorType::Vec2) == "VEC2")
W("accessor type from VEC2", getAccessorType("VEC2") == AccessorType::Vec2)
W("accessor type components Vec2", getNumComponents(AccessorType::Vec2) == 2)
W("accessor type name Vec3", getAccessorTypeName(AccessorType::Vec3) == "VEC3")
W("accessor type from VEC3", getAccessorType("VEC3") == AccessorType::Vec3)
W("accessor type components Vec3", getNumComponents(AccessorType::Vec3) == 3)
W("accessor type name Vec4", getAccessorTypeName(AccessorType::Vec4) == "VEC4")
W("accessor type from VEC4", getAccessorType("VEC4") == AccessorType::Vec4)
W("accessor type components Vec4", getNumComponents(AccessorType::Vec4) == 4)
W("accessor type name Mat2", getAccessorTypeName(AccessorType::Mat2) == "MAT2")
W("accessor type from MAT2", getAccessorType("MAT2") == AccessorType::Mat2)
W("accessor type components Mat2", getNumComponents(AccessorType::Mat2) == 4)
W("accessor type name Mat3", getAccessorTypeName(AccessorType::Mat3) == "MAT3")
W("accessor type from MAT3", getAccessorType("MAT3") == AccessorType::Mat3)
W("accessor type components Mat3", getNumComponents(AccessorType::Mat3) == 9)
W("accessor type name Mat4", getAccessorTypeName(AccessorType::Mat4) == "MAT4")
W("accessor type from MAT4", getAccessorType("MAT4") == AccessorType::Mat4)
W("accessor type components Mat4", getNumComponents(AccessorType::Mat4) == 16)
W("no accessor type vec2", getAccessorType("vec2") == AccessorType::Invalid)
W("no accessor type VEC5", getAccessorType("VEC5") == AccessorType::Invalid)
W("no accessor type MAT5", getAccessorType("MAT5") == AccessorType::Invalid)
W("no accessor type VEC", getAccessorType("VEC") == AccessorType::Invalid)
W("GL constant Byte", getGLComponentType(ComponentType::Byte) == 5120)
W("component type from 5120", getComponentType(5120) == ComponentType::Byte)
W("component size Byte", getComponentByteSize(ComponentType::Byte) == 1 && getComponentBitSize(ComponentType::Byte) == 8)
W("GL constant UnsignedByte", getGLComponentType(ComponentType::UnsignedByte) == 5121)
W("component type from 5121", getComponentType(5121) == ComponentType::UnsignedByte)
W("component size UnsignedByte", getComponentByteSize(ComponentType::UnsignedByte) == 1 && getComponentBitSize(ComponentType::UnsignedByte) == 8)
W("GL constant Short", getGLComponentType(ComponentType::Short) == 5122)
W("component type from 5122", getComponentType(5122) == ComponentType::Short)
W("component size Short", getComponentByteSize(ComponentType::Short) == 2 && getComponentBitSize(ComponentType::Short) == 16)
W("GL constant UnsignedShort", getGLComponentType(ComponentType::UnsignedShort) == 5123)
W("component type from 5123", getComponentType(5123) == ComponentType::UnsignedShort)
W("component size UnsignedShort", getComponentByteSize(ComponentType::UnsignedShort) == 2 && getComponentBitSize(ComponentType::UnsignedShort) == 16)
W("GL constant Int", getGLComponentType(ComponentType::Int) == 5124)
W("component type from 5124", getComponentType(5124) == ComponentType::Int)
W("component size Int", getComponentByteSize(ComponentType::Int) == 4 && getComponentBitSize(ComponentType::Int) == 32)
W("GL constant UnsignedInt", getGLComponentType(ComponentType::UnsignedInt) == 5125)
W("component type from 5125", getComponentType(5125) == ComponentType::UnsignedInt)
W("component size UnsignedInt", getComponentByteSize(ComponentType::UnsignedInt) == 4 && getComponentBitSize(ComponentType::UnsignedInt) == 32)
W("GL constant Float", getGLComponentType(ComponentType::Float) == 5126)
W("component type from 5126", getComponentType(5126) == ComponentType::Float)
W("component size Float", getComponentByteSize(ComponentType::Float) == 4 && getComponentBitSize(ComponentType::Float) == 32)
W("GL constant Double", getGLComponentType(ComponentType::Double) == 5130)
W("component type from 5130", getComponentType(5130) == ComponentType::Double)
W("component size Double", getComponentByteSize(ComponentType::Double) == 8 && getComponentBitSize(ComponentType::Double) == 64)
W("no component type 5119", getComponentType(5119) == ComponentType::Invalid)
W("no component type 5127", getComponentType(5127) == ComponentType::Invalid)
W("no component type 5128", getComponentType(5128) == ComponentType::Invalid)
W("no component type 5129", getComponentType(5129) == ComponentType::Invalid)
W("no component type 5131", getComponentType(5131) == ComponentType::Invalid)
W("no component type 0", getComponentType(0) == ComponentType::Invalid)
W("element size Scalar of Byte", getElementByteSize(AccessorType::Scalar, ComponentType::Byte) == 1)
W("element size Scalar of UnsignedByte", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedByte) == 1)
W("element size Scalar of Short", getElementByteSize(AccessorType::Scalar, ComponentType::Short) == 2)
W("element size Scalar of UnsignedShort", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedShort) == 2)
W("element size Scalar of Int", getElementByteSize(AccessorType::Scalar, ComponentType::Int) == 4)
W("element size Scalar of UnsignedInt", getElementByteSize(AccessorType::Scalar, ComponentType::UnsignedInt) == 4)
W("element size Scalar of Float", getElementByteSize(AccessorType::Scalar, ComponentType::Float) == 4)
W("element size Scalar of Double", getElementByteSize(AccessorType::Scalar, ComponentType::Double) == 8)
W("element size Vec2 of Byte", getElementByteSize(AccessorType::Vec2, ComponentType::Byte) == 2)
W("element size Vec2 of UnsignedByte", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedByte) == 2)
W("element size Vec2 of Short", getElementByteSize(AccessorType::Vec2, ComponentType::Short) == 4)
W("element size Vec2 of UnsignedShort", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedShort) == 4)
W("element size Vec2 of Int", getElementByteSize(AccessorType::Vec2, ComponentType::Int) == 8)
W("element size Vec2 of UnsignedInt", getElementByteSize(AccessorType::Vec2, ComponentType::UnsignedInt) == 8)
W("element size Vec2 of Float", getElementByteSize(AccessorType::Vec2, ComponentType::Float) == 8)
W("element size Vec2 of Double", getElementByteSize(AccessorType::Vec2, ComponentType::Double) == 16)
W("element size Vec3 of Byte", getElementByteSize(AccessorType::Vec3, ComponentType::Byte) == 3)
W("element size Vec3 of UnsignedByte", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedByte) == 3)
W("element size Vec3 of Short", getElementByteSize(AccessorType::Vec3, ComponentType::Short) == 6)
W("element size Vec3 of UnsignedShort", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedShort) == 6)
W("element size Vec3 of Int", getElementByteSize(AccessorType::Vec3, ComponentType::Int) == 12)
W("element size Vec3 of UnsignedInt", getElementByteSize(AccessorType::Vec3, ComponentType::UnsignedInt) == 12)
W("element size Vec3 of Float", getElementByteSize(AccessorType::Vec3, ComponentType::Float) == 12)
W("element size Vec3 of Double", getElementByteSize(AccessorType::Vec3, ComponentType::Double) == 24)
W("element size Vec4 of Byte", getElementByteSize(AccessorType::Vec4, ComponentType::Byte) == 4)
W("element size Vec4 of UnsignedByte", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedByte) == 4)
W("element size Vec4 of Short", getElementByteSize(AccessorType::Vec4, ComponentType::Short) == 8)
W("element size Vec4 of UnsignedShort", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedShort) == 8)
W("element size Vec4 of Int", getElementByteSize(AccessorType::Vec4, ComponentType::Int) == 16)
W("element size Vec4 of UnsignedInt", getElementByteSize(AccessorType::Vec4, ComponentType::UnsignedInt) == 16)
W("element size Vec4 of Float", getElementByteSize(AccessorType::Vec4, ComponentType::Float) == 16)
W("element size Vec4 of Double", getElementByteSize(AccessorType::Vec4, ComponentType::Double) == 32)
W("element size Mat2 of Byte", getElementByteSize(AccessorType::Mat2, ComponentType::Byte) == 8)
W("element size Mat2 of UnsignedByte", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedByte) == 8)
W("element size Mat2 of Short", getElementByteSize(AccessorType::Mat2, ComponentType::Short) == 8)
W("element size Mat2 of UnsignedShort", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedShort) == 8)
W("element size Mat2 of Int", getElementByteSize(AccessorType::Mat2, ComponentType::Int) == 16)
W("element size Mat2 of UnsignedInt", getElementByteSize(AccessorType::Mat2, ComponentType::UnsignedInt) == 16)
W("element size Mat2 of Float", getElementByteSize(AccessorType::Mat2, ComponentType::Float) == 16)
W("element size Mat2 of Double", getElementByteSize(AccessorType::Mat2, ComponentType::Double) == 32)
W("element size Mat3 of Byte", getElementByteSize(AccessorType::Mat3, ComponentType::Byte) == 12)
W("element size Mat3 of UnsignedByte", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedByte) == 12)
W("element size Mat3 of Short", getElementByteSize(AccessorType::Mat3, ComponentType::Short) == 24)
W("element size Mat3 of UnsignedShort", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedShort) == 24)
W("element size Mat3 of Int", getElementByteSize(AccessorType::Mat3, ComponentType::Int) == 36)
W("element size Mat3 of UnsignedInt", getElementByteSize(AccessorType::Mat3, ComponentType::UnsignedInt) == 36)
W("element size Mat3 of Float", getElementByteSize(AccessorType::Mat3, ComponentType::Float) == 36)
W("element size Mat3 of Double", getElementByteSize(AccessorType::Mat3, ComponentType::Double) == 72)
W("element size Mat4 of Byte", getElementByteSize(AccessorType::Mat4, ComponentType::Byte) == 16)
W("element size Mat4 of UnsignedByte", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedByte) == 16)
W("element size Mat4 of Short", getElementByteSize(AccessorType::Mat4, ComponentType::Short) == 32)
W("element size Mat4 of UnsignedShort", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedShort) == 32)
W("element size Mat4 of Int", getElementByteSize(AccessorType::Mat4, ComponentType::Int) == 64)
W("element size Mat4 of UnsignedInt", getElementByteSize(AccessorType::Mat4, ComponentType::UnsignedInt) == 64)
W("element size Mat4 of Float", getElementByteSize(AccessorType::Mat4, ComponentType::Float) == 64)
W("element size Mat4 of Double", getElementByteSize(AccessorType::Mat4, ComponentType::Double) == 128)
W("primitive mode Points", static_cast<unsigned>(PrimitiveType::Points) == 0)
W("primitive mode Lines", static_cast<unsigned>(PrimitiveType::Lines) == 1)
W("primitive mode LineLoop", static_cast<unsigned>(PrimitiveType::LineLoop) == 2)
W("primitive mode LineStrip", static_cast<unsigned>(PrimitiveType::LineStrip) == 3)
W("primitive mode Triangles", static_cast<unsigned>(PrimitiveType::Triangles) == 4)
W("primitive mode TriangleStrip", static_cast<unsigned>(PrimitiveType::TriangleStrip) == 5)
W("primitive mode TriangleFan", static_cast<unsigned>(PrimitiveType::TriangleFan) == 6)
W("filter Nearest", static_cast<unsigned>(Filter::Nearest) == 9728)
W("filter Linear", static_cast<unsigned>(Filter::Linear) == 9729)
W("filter NearestMipMapNearest", static_cast<unsigned>(Filter::NearestMipMapNearest) == 9984)
W("filter LinearMipMapNearest", static_cast<unsigned>(Filter::LinearMipMapNearest) == 9985)
W("filter NearestMipMapLinear", static_cast<unsigned>(Filter::NearestMipMapLinear) == 9986)
W("filter LinearMipMapLinear", static_cast<unsigned>(Filter::LinearMipMapLinear) == 9987)
W("wrap ClampToEdge", static_cast<unsigned>(Wrap::ClampToEdge) == 33071)
W("wrap MirroredRepeat", static_cast<unsigned>(Wrap::MirroredRepeat) == 33648)
W("wrap Repeat", static_cast<unsigned>(Wrap::Repeat) == 10497)
W("buffer target ArrayBuffer", static_cast<unsigned>(BufferTarget::ArrayBuffer) == 34962)
W("buffer target ElementArrayBuffer", static_cast<unsigned>(BufferTarget::ElementArrayBuffer) == 34963)
W("combine mode Average", getFrictionCombineName(CombineMode::Average) == "average")
W("combine mode Minimum", getFrictionCombineName(CombineMode::Minimum) == "minimum")
W("combine mode Maximum", getFrictionCombineName(CombineMode::Maximum) == "maximum")
W("combine mode Multiply", getFrictionCombineName(CombineMode::Multiply) == "multiply")
W("mime type JPEG", getMimeTypeString(MimeType::JPEG) == "image/jpeg")
W("mime type PNG", getMimeTypeString(MimeType::PNG) == "image/png")
W("mime type KTX2", getMimeTypeString(MimeType::KTX2) == "image/ktx2")
W("mime type DDS", getMimeTypeString(MimeType::DDS) == "image/vnd-ms.dds")
W("mime type GltfBuffer", getMimeTypeString(MimeType::GltfBuffer) == "application/gltf-buffer")
W("mime type OctetStream", getMimeTypeString(MimeType::OctetStream) == "application/octet-stream")
W("mime type WEBP", getMimeTypeString(MimeType::WEBP) == "image/webp")
W("mime type None", getMimeTypeString(MimeType::None) == "")
W("combine mode from average", getCombineMode("average") == CombineMode::Average)
W("combine mode from minimum", getCombineMode("minimum") == CombineMode::Minimum)
W("combine mode from maximum", getCombineMode("maximum") == CombineMode::Maximum)
W("combine mode from multiply", getCombineMode("multiply") == CombineMode::Multiply)
W("drive type from linear", getDriveType("linear") == DriveType::Linear)
W("drive type from angular", getDriveType("angular") == DriveType::Angular)
W("drive mode from force", getDriveMode("force") == DriveMode::Force)
W("drive mode from acceleration", getDriveMode("acceleration") == DriveMode::Acceleration)
