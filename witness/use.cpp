// Uses of the public templates, so that their bodies are type-checked in every configuration.
#include <fastgltf/core.hpp>
#include <fastgltf/base64.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/types.hpp>
#include <fastgltf/util.hpp>
#include <fastgltf/math.hpp>
#include <memory>
#include <string>
namespace fg = fastgltf;
template class fg::SmallVector<int, 4>;
template class fg::SmallVector<double, 2>;
namespace witness {
template <typename T> void accessors(const fg::Asset& asset, const fg::Accessor& a, T* out) {
	(void)fg::getAccessorElement<T>(asset, a, 0);
	fg::iterateAccessor<T>(asset, a, [&](T v) { *out++ = v; });
	fg::iterateAccessorWithIndex<T>(asset, a, [&](T v, std::size_t i) { out[i] = v; });
	fg::copyFromAccessor<T>(asset, a, out);
	fg::copyFromAccessor<T, 64>(asset, a, out);
	for (auto v : fg::iterateAccessor<T>(asset, a)) *out++ = v;
}
template <typename T> void components(const fg::Asset& asset, const fg::Accessor& a, T* out) { fg::copyComponentsFromAccessor<T>(asset, a, out); }
template <typename F> void scalar(const fg::Asset& s, const fg::Accessor& a) { F* p = nullptr; accessors<F>(s, a, p); components<F>(s, a, p); }
template <typename... T> void all(const fg::Asset& s, const fg::Accessor& a) { (accessors<T>(s, a, nullptr), ...); }
void use(fg::Asset& asset, fg::Accessor& a) {
	scalar<std::int8_t>(asset, a); scalar<std::uint8_t>(asset, a); scalar<std::int16_t>(asset, a); scalar<std::uint16_t>(asset, a);
	scalar<std::uint32_t>(asset, a); scalar<float>(asset, a); scalar<double>(asset, a);
	all<fg::math::fvec2, fg::math::fvec3, fg::math::fvec4, fg::math::dvec3, fg::math::u8vec4, fg::math::u16vec4, fg::math::s16vec2, fg::math::u32vec2, fg::math::fquat, fg::math::fmat2x2, fg::math::fmat3x3, fg::math::fmat4x4>(asset, a);
	fg::iterateSceneNodes(asset, 0, fg::math::fmat4x4(), [](fg::Node& n, fg::math::fmat4x4) { n.name.clear(); });
	const fg::Asset& c = asset;
	fg::iterateSceneNodes(c, 0, fg::math::fmat4x4(), [](const fg::Node&, fg::math::fmat4x4) {});
}
void containers() {
	fg::SmallVector<int, 4> v; v.emplace_back(2); (void)v.rbegin(); v.resize(9); v.reserve(20); v.shrink_to_fit(); v.assign(3, 1); v.clear();
	fg::SmallVector<int, 4> w(v), x(std::move(w)); w = x; x = std::move(v);
	fg::SmallVector<std::string, 2> s; s.emplace_back("a"); s.resize(4); auto t = s; t = std::move(s); t.shrink_to_fit();
	fg::pmr::SmallVector<std::uint32_t, 3> p; p.emplace_back(1U);
	fg::MaybeSmallVector<std::size_t> m; m.emplace_back(1);
	fg::pmr::MaybeSmallVector<std::size_t> pm; pm.emplace_back(1);
	fg::StaticVector<std::byte> sv(4); auto sw = sv; sw = std::move(sv); (void)sw.size();
	fg::OptionalWithFlagValue<std::size_t> o; o = 3U; (void)o.value_or(2U); if (o) o.reset();
	fg::Optional<float> f; (void)f.has_value();
}
void entry() {
	fg::Parser parser(fg::Extensions::KHR_lights_punctual); fg::Parser moved(std::move(parser)); parser = std::move(moved);
	parser.setUserPointer(nullptr); parser.setBase64DecodeCallback(nullptr);
	parser.setBufferAllocationCallback(nullptr, nullptr); parser.setExtrasParseCallback(nullptr);
	auto data = fg::GltfDataBuffer::FromPath("x"); auto asset = parser.loadGltf(data.get(), "x", fg::Options::None, fg::Category::All);
	if (asset.error() != fg::Error::None) return;
	(void)fg::validate(asset.get());
	fg::Exporter e; (void)e.writeGltfJson(asset.get(), fg::ExportOptions::None); (void)e.writeGltfBinary(asset.get());
	fg::FileExporter fe; (void)fe.writeGltfJson(asset.get(), "x");
	(void)fg::base64::decode("AAAA");
	(void)fg::stringifyExtensionBits(fg::Extensions::KHR_lights_punctual);
	fg::URI u(std::string_view("a%20b")); fg::URIView uv = u; (void)uv.isDataUri(); fg::URI u2(u), u3(std::move(u2)); u2 = u3;
	fg::Asset a2(std::move(asset.get())); (void)a2.buffers.size();
}
}
