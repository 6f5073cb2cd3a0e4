// C32: rectangles against point sets, polygons against exact turning directions.
#include <array>
#include "vf.hh"
#include "util/geometry.hh"
using namespace vf;
using i32 = int32_t;

static i64 overlap(i64 a0, i64 a1, i64 b0, i64 b1) { // number of common points of two closed intervals
	return std::min(a1, b1) - std::max(a0, b0) + 1;
}

static void rects(RectC a, RectC b) {
	bool x = overlap(a.left, a.right, b.left, b.right) > 0, y = overlap(a.top, a.bottom, b.top, b.bottom) > 0;
	VF_LOG("(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d)", a.left, a.top, a.right, a.bottom, b.left, b.top, b.right, b.bottom);
	VF_EQ(a.x_intersects(b), x, "x-intersects");
	VF_EQ(b.x_intersects(a), x, "x-intersects");
	VF_EQ(a.y_intersects(b), y, "y-intersects");
	VF_EQ(b.y_intersects(a), y, "y-intersects");
	VF_EQ(a.is_intersecting(b), x && y, "intersects");
	VF_EQ(b.is_intersecting(a), x && y, "intersects");
	VF_CHECK(a.is_intersecting(a), "intersects-itself", "%s", "");
	if (x && y) {
		VF_COVER("intersecting");
		if ((a.left < b.left && a.right > b.right) || (b.left < a.left && b.right > a.right))
			VF_COVER("containing");
	} else if (x || y)
		VF_COVER("overlap_in_one_axis");
	else
		VF_COVER("apart");
}
static void middles(RectC a) {
	VF_EQ(a.width(), (i32)((i64)a.right - a.left), "width");
	VF_EQ(a.height(), (i32)((i64)a.bottom - a.top), "height");
	// the middle, to within the half unit
	VF_CHECK(std::abs(2 * (i64)a.center_x() - ((i64)a.left + a.right)) <= 1, "center", "%d of %d..%d", a.center_x(), a.left, a.right);
	VF_CHECK(std::abs(2 * (i64)a.center_y() - ((i64)a.top + a.bottom)) <= 1, "center", "%d of %d..%d", a.center_y(), a.top, a.bottom);
	Rect r{a.left, a.top, a.width(), a.height()};
	VF_EQ(r.right(), a.right, "right-edge");
	VF_EQ(r.bottom(), a.bottom, "bottom-edge");
	VF_CHECK(std::abs(2 * (i64)r.center_x() - ((i64)a.left + a.right)) <= 1, "center", "%d of %d..%d", r.center_x(), a.left, a.right);
	VF_CHECK(std::abs(2 * (i64)r.center_y() - ((i64)a.top + a.bottom)) <= 1, "center", "%d of %d..%d", r.center_y(), a.top, a.bottom);
}

static RectC rect(Rng &rng, i64 span) {
	auto iv = [&](i32 &lo, i32 &hi) {
		lo = (i32)rng.range(-span, span);
		hi = rng.chance(1, 6) ? lo : (i32)rng.range(-span, span);
		if (lo > hi)
			std::swap(lo, hi);
	};
	RectC r{};
	iv(r.left, r.right);
	iv(r.top, r.bottom);
	return r;
}
VF_SUITE(rectangles, 300000, 20000000) {
	i64 span = rng.pick<i64>({3, 8, 100, 5000, 1 << 29});
	RectC a = rect(rng, span), b = rect(rng, span);
	if (rng.chance(1, 5)) { // touching, or one unit apart
		b.left = a.right + (i32)rng.range(-1, 1);
		b.right = b.left + (i32)rng.below(10);
	}
	if (rng.chance(1, 5)) {
		b.bottom = a.top + (i32)rng.range(-1, 1);
		b.top = b.bottom - (i32)rng.below(10);
	}
	rects(a, b);
	middles(a);
	middles(b);
	nontrivial(Hash{}.add(a.left).add(a.right).add(a.top).add(a.bottom).add(b.left).add(b.right).add(b.top).add(b.bottom));
	if (want_sample())
		sample(fmt("(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d)", a.left, a.top, a.right, a.bottom, b.left, b.top, b.right, b.bottom));
}
// full-range coordinates: comparisons only
VF_SUITE(rectangles_far, 100000, 5000000) {
	auto iv = [&](i32 &lo, i32 &hi) {
		lo = rng.anyint<i32>();
		hi = rng.anyint<i32>();
		if (lo > hi)
			std::swap(lo, hi);
	};
	RectC a{}, b{};
	iv(a.left, a.right);
	iv(a.top, a.bottom);
	iv(b.left, b.right);
	iv(b.top, b.bottom);
	rects(a, b);
	if ((i64)a.right - a.left <= INT32_MAX && (i64)a.bottom - a.top <= INT32_MAX) {
		middles(a);
		if (std::abs((i64)a.left + a.right) > INT32_MAX)
			VF_COVER("centers_far_out");
	}
	nontrivial(Hash{}.add(a.left).add(a.right).add(a.top).add(a.bottom).add(b.left).add(b.right).add(b.top).add(b.bottom));
}
// every pair of intervals in 0..5, in both axes
VF_SUITE(enum_rectangles, 21 * 21, 21 * 21) {
	std::vector<std::pair<i32, i32>> iv;
	for (i32 a = 0; a < 6; a++)
		for (i32 b = a; b < 6; b++)
			iv.push_back({a, b});
	auto p = iv[idx % 21], q = iv[idx / 21];
	for (auto &r : iv)
		for (auto &s : iv)
			rects({p.first, r.first, p.second, r.second}, {q.first, s.first, q.second, s.second});
	evaluated(441);
	nontrivial(idx);
}

// ---------------------------------------------------------------------------
template<typename C>
struct Pt {
	C x, y;
};
using W = long double;

// +1 both directions of turning occur, 0 not, -1 too close to call
template<typename C>
static int concave(std::vector<Pt<C>> const &p) {
	size_t n = p.size();
	if (n < 3)
		return 0;
	bool pos = false, neg = false, unsure = false;
	for (size_t i = 0; i < n; i++) {
		auto &O = p[i], &A = p[(i + 1) % n], &B = p[(i + 2) % n];
		if constexpr (std::is_integral_v<C>) {
			__int128 c = (__int128)((i64)A.x - (i64)O.x) * ((i64)B.y - (i64)O.y) - (__int128)((i64)A.y - (i64)O.y) * ((i64)B.x - (i64)O.x);
			pos |= c > 0;
			neg |= c < 0;
		} else {
			W a = ((W)A.x - O.x) * ((W)B.y - O.y), b = ((W)A.y - O.y) * ((W)B.x - O.x);
			W c = a - b, tol = (std::abs(a) + std::abs(b)) * (sizeof(C) == 4 ? 1e-6L : 1e-15L);
			if (std::abs(c) <= tol && !(a == b && c == 0 && a == 0)) {
				unsure = true;
				continue;
			}
			pos |= c > 0;
			neg |= c < 0;
		}
	}
	if (pos && neg)
		return 1;
	return unsure ? -1 : 0;
}
template<typename C>
static void judge(std::vector<Pt<C>> p, const char *what) {
	p.shrink_to_fit();
	int want = concave(p);
	if constexpr (std::is_integral_v<C>)
		for (auto &v : p)
			if (std::abs((i64)v.x - (i64)p[0].x) > 50000) {
				VF_COVER("wide_integer_polygons");
				break;
			}
	if (want < 0) {
		VF_COVER("too_close_to_call");
		return;
	}
	auto ask = [&](std::vector<Pt<C>> const &q) { return is_poly_concave<Pt<C>>(std::span<const Pt<C>>(q.data(), q.size())); };
	for (auto &v : p)
		VF_LOG("%s (%.9g, %.9g)", what, (double)v.x, (double)v.y);
	VF_EQ(ask(p), want == 1, "concave");
	// the other direction, and any starting corner
	auto r = p;
	std::reverse(r.begin(), r.end());
	if (concave(r) >= 0)
		VF_EQ(ask(r), want == 1, "concave-reversed");
	if (!p.empty()) {
		std::rotate(r.begin(), r.begin() + r.size() / 2, r.end());
		if (concave(r) >= 0)
			VF_EQ(ask(r), want == 1, "concave-rotated");
	}
	if (want == 1)
		VF_COVER("concave_polygons");
	else if (p.size() >= 3)
		VF_COVER("convex_polygons");
	else
		VF_COVER("too_few_corners");
	Hash h;
	for (auto &v : p)
		h.addf((double)v.x).addf((double)v.y);
	nontrivial(h);
}
template<typename C>
static void poly(Rng &rng) {
	std::vector<Pt<C>> p;
	unsigned n = rng.chance(1, 10) ? rng.below(3) : 3 + rng.below(8);
	double scale = std::is_integral_v<C> ? (sizeof(C) == 1 ? 100 : sizeof(C) == 2 ? rng.pick({120., 7000., 16000.}) : rng.pick({10., 1000., 7000., 1e6, 5e8})) :
										   rng.pick({0.05, 0.4, 1., 30., 2000.});
	if (sizeof(C) >= 4 && rng.chance(1, 500)) {
		n = rng.pick<unsigned>({255, 256, 257, 300, 65536, 70000});
		VF_COVER("polygons_of_many_corners");
	}
	double cx = 0, cy = 0;
	bool uns = std::is_unsigned_v<C>;
	if (uns)
		cx = cy = scale + 5;
	else if (rng.chance(1, 2)) {
		cx = rng.real(-scale, scale) * (sizeof(C) == 1 ? .2 : 1);
		cy = rng.real(-scale, scale) * (sizeof(C) == 1 ? .2 : 1);
	}
	double a0 = rng.real(0, 6.28), dir = rng.chance(1, 2) ? 1 : -1;
	int style = rng.below(n > 200 && sizeof(C) >= 8 ? 3 : 4);
	if (n > 200 && rng.chance(2, 3))
		style = 4; // along the edges of a square, perhaps with one of them pulled in
	unsigned dent = rng.below(n + 1);
	for (unsigned i = 0; i < n; i++) {
		double a = a0 + dir * 6.283185307 * (i + (style == 1 ? rng.real(-.3, .3) : 0)) / n, r = scale;
		if (style == 2 && i == dent)
			r = scale * rng.real(-.2, .95); // pulled in
		if (style == 3)
			r = scale * rng.real(.1, 1);
		p.push_back({(C)(cx + r * std::cos(a)), (C)(cy + r * std::sin(a))});
		if (style == 4) {
			unsigned side = n / 4 + 1, at = i % side;
			switch (i / side) {
				case 0:
					p.back() = {(C)(5 + at), (C)5};
					break;
				case 1:
					p.back() = {(C)(5 + side), (C)(5 + at)};
					break;
				case 2:
					p.back() = {(C)(5 + side - at), (C)(5 + side)};
					break;
				default:
					p.back() = {(C)5, (C)(5 + side - at)};
			}
		}
	}
	if (style == 4) {
		if (rng.chance(1, 2)) { // outside a side in its middle, inside beyond a corner: both turn both ways
			auto &q = p[dent % n];
			q.x += (C)rng.range(1, 3);
			VF_COVER("long_outlines_dented");
		}
		if (rng.chance(1, 2))
			std::rotate(p.begin(), p.begin() + rng.below(n), p.end());
	}
	if (n && rng.chance(1, 6)) // a repeated corner
		p.insert(p.begin() + rng.below(n), p[rng.below(n)]);
	judge(p, "corner");
}
VF_SUITE(polygons, 150000, 10000000) {
	switch (rng.below(8)) {
		case 6:
			VF_COVER("unsigned_coordinates");
			return poly<u32>(rng);
		case 7:
			VF_COVER("unsigned_coordinates");
			return poly<u64>(rng);
		case 0:
			return poly<uint8_t>(rng);
		case 1:
			return poly<i32>(rng);
		case 2:
			return poly<int16_t>(rng);
		case 3:
			return poly<float>(rng);
		case 4:
			return poly<double>(rng);
		default:
			return poly<i64>(rng);
	}
}
// every quadrilateral on a 4 x 4 grid (first corner fixed by the case), in integers and in thirds
VF_SUITE(enum_quads, 256, 256) {
	unsigned a = idx % 16, b = idx / 16;
	for (unsigned c = 0; c < 16; c++)
		for (unsigned d = 0; d < 16; d++) {
			std::vector<Pt<i32>> p;
			std::vector<Pt<double>> q;
			for (unsigned k : {a, b, c, d}) {
				p.push_back({(i32)(k % 4), (i32)(k / 4)});
				q.push_back({(k % 4) / 4.0, (k / 4) / 4.0}); // exact in binary, products below one
			}
			judge(p, "grid");
			bool want = concave(p) == 1;
			VF_EQ((is_poly_concave<Pt<double>>(std::span<const Pt<double>>(q.data(), q.size()))), want, "concave");
		}
	evaluated(512);
}
