// C37: the software NEON lane operations.
#include "vf.hh"
#include "util/soft_neon.hh"
using namespace vf;

static bool same(float a, float b) {
	return a == b || (a != a && b != b);
}
static float value(Rng &r) {
	switch (r.below(6)) {
		case 0:
			return (float)((i64)r.below(9) - 4);
		case 1:
			return r.anyfloat(-140, 127);
		case 2:
			return r.pick({0.f, -0.f, 1.f, -1.f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, 1e-45f});
		case 3:
			return r.pick({std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
		default:
			return r.anyfloat(-20, 20);
	}
}
static float32x4_t quad(Rng &r) {
	return {{value(r), value(r), value(r), value(r)}};
}
template<unsigned N, class V>
static void lanes(const V &got, const float (&want)[N], const char *key) {
	for (unsigned i = 0; i < N; i++)
		VF_CHECK(same(got[i], want[i]), key, "lane %u is %a, expected %a", i, (double)got[i], (double)want[i]);
}

VF_SUITE(lane_operations, 60000, 4000000) {
	float32x4_t a = quad(rng), b = quad(rng), c = quad(rng);
	const float32x4_t a0 = a, b0 = b, c0 = c;
	volatile float t[4];
	float w[4];
	auto keep = [&] {
		for (unsigned i = 0; i < 4; i++)
			w[i] = t[i];
	};
	for (unsigned i = 0; i < 4; i++)
		t[i] = b[i] * c[i];
	keep();
	float prod[4] = {w[0], w[1], w[2], w[3]};
	lanes(vmulq_f32(b, c), w, "vmulq");
	for (unsigned i = 0; i < 4; i++)
		t[i] = a[i] + prod[i];
	keep();
	lanes(vmlaq_f32(a, b, c), w, "vmlaq");
	for (unsigned i = 0; i < 4; i++)
		t[i] = a0[i] - b0[i];
	keep();
	lanes(vsubq_f32(a0, b), w, "vsubq");
	for (unsigned i = 0; i < 4; i++)
		w[i] = a0[i] > b0[i] ? a0[i] : b0[i];
	lanes(vmaxq_f32(a0, b0), w, "vmaxq");
	// arguments are values
	lanes(a, a0.v, "argument-modified");
	lanes(b, b0.v, "argument-modified");
	lanes(c, c0.v, "argument-modified");
	float s = value(rng);
	float all[4] = {s, s, s, s};
	lanes(vdupq_n_f32(s), all, "vdupq");
	auto low = vget_low_f32(a0), high = vget_high_f32(a0);
	float wl[2] = {a0.v[0], a0.v[1]}, wh[2] = {a0.v[2], a0.v[3]};
	lanes(low, wl, "vget_low");
	lanes(high, wh, "vget_high");
	t[0] = wl[0] + wl[1];
	t[1] = wh[0] + wh[1];
	float wp[2] = {t[0], t[1]};
	lanes(vpadd_f32(low, high), wp, "vpadd");
	for (unsigned i = 0; i < 2; i++)
		VF_CHECK(same(vget_lane_f32(high, i), a0.v[2 + i]), "vget_lane", "lane %u", i);
	// an array exactly as long as the load
	auto mem = std::make_unique<float[]>(4);
	for (unsigned i = 0; i < 4; i++)
		mem[i] = b0[i];
	lanes(vld1q_f32(mem.get()), b0.v, "vld1q");
	a[idx % 4] = s;
	VF_CHECK(same(a.v[idx % 4], s), "lane-reference", "lane %u written through []", (unsigned)(idx % 4));
	VF_COVER("vectors_evaluated");
	for (unsigned i = 0; i < 4; i++)
		if (std::isinf(prod[i]))
			VF_COVER("infinite_lanes");
	Hash h;
	for (unsigned i = 0; i < 4; i++)
		h.addf(a0[i]).addf(b0[i]).addf(c0[i]);
	nontrivial(h);
	if (want_sample())
		sample(fmt("a=%a,%a,.. b=%a,.. c=%a,..: nine operations lane by lane", (double)a0[0], (double)a0[1], (double)b0[0],
				   (double)c0[0]));
}

// The use it is made for: dot products and running maxima by blocks of four.
VF_SUITE(kernels, 6000, 200000) {
	unsigned n = 4 * (1 + rng.below(16));
	std::vector<float> x(n), y(n);
	for (unsigned i = 0; i < n; i++)
		x[i] = (float)((i64)rng.below(201) - 100), y[i] = (float)((i64)rng.below(201) - 100);
	auto acc = vdupq_n_f32(0.f), mx = vdupq_n_f32(-1000.f), start = acc;
	for (unsigned i = 0; i < n; i += 4) {
		auto xv = vld1q_f32(&x[i]), yv = vld1q_f32(&y[i]);
		acc = vmlaq_f32(acc, xv, yv);
		mx = vmaxq_f32(mx, vsubq_f32(xv, yv));
	}
	auto two = vpadd_f32(vget_low_f32(acc), vget_high_f32(acc));
	float dot = vget_lane_f32(vpadd_f32(two, two), 0);
	i64 want = 0;
	float wm = -1000.f;
	for (unsigned i = 0; i < n; i++)
		want += (i64)x[i] * (i64)y[i], wm = std::max(wm, x[i] - y[i]);
	VF_CHECK(dot == (float)want, "dot-product", "%u elements: %f, exactly %lld", n, (double)dot, (long long)want);
	float m = std::max(std::max(mx[0], mx[1]), std::max(mx[2], mx[3]));
	VF_CHECK(m == wm, "maximum", "%u elements: %f, exactly %f", n, (double)m, (double)wm);
	VF_CHECK(start[0] == 0.f && start[3] == 0.f, "argument-modified", "%u", n);
	VF_COVER("kernels_run");
	Hash h;
	h.add(n).add(want).addf(wm);
	nontrivial(h);
}
