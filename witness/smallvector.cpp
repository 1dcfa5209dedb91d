// SmallVector with element types of each kind: trivially copyable, moved without throwing, copied when it grows.
#include <cstddef>
#include <fastgltf/types.hpp>

namespace verif {
	struct Plain { int v[3]; };
	struct Moving {
		Moving(); Moving(const Moving&); Moving(Moving&&) noexcept; ~Moving();
		Moving& operator=(const Moving&); Moving& operator=(Moving&&) noexcept;
		int v[3];
	};
	struct Copying {
		Copying(); Copying(const Copying&); Copying(Copying&&) noexcept(false); ~Copying();
		Copying& operator=(const Copying&); Copying& operator=(Copying&&) noexcept(false);
		int v[3];
	};
}
template class fastgltf::SmallVector<verif::Plain, 3>;
template class fastgltf::SmallVector<verif::Moving, 3>;
template class fastgltf::SmallVector<verif::Copying, 3>;

void use(fastgltf::SmallVector<verif::Plain, 3>& a, fastgltf::SmallVector<verif::Moving, 3>& b, fastgltf::SmallVector<verif::Copying, 3>& c, const verif::Plain& x, const verif::Moving& y, const verif::Copying& z) {
	a.emplace_back(x); b.emplace_back(y); c.emplace_back(z);
	a.emplace_back(); b.emplace_back(); c.emplace_back();
}
