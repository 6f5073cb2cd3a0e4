// C23: smoothing filters against their definitions, in range, converging.
#include "vf.hh"
#include "util/filter.hh"
using namespace vf;

// the last N samples (or the present block), kept by the model
struct Win {
	std::vector<u64> total{0}; // of the first k samples
	void push(u64 x) {
		total.push_back(total.back() + x);
	}
	u64 mean_last(size_t n) const {
		size_t k = total.size() - 1;
		return (total[k] - total[k - std::min(n, k)]) / n;
	}
};

template<typename T>
static T draw(Rng &rng, unsigned bits, int mode, T last) {
	u64 m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
	switch (mode) {
		case 0:
			return (T)m; // all full scale
		case 1:
			return last;
		case 2:
			return (T)(rng.chance(1, 2) ? m : 0);
		case 3:
			return (T)std::clamp<i64>((i64)last + rng.range(-3, 3), 0, (i64)m);
		default:
			return (T)(rng.next() & m);
	}
}

template<unsigned N, typename T, unsigned Bits>
static void moving(Rng &rng) {
	Guarded<MovingAverage<N, T, Bits>> g;
	auto &f = g.obj;
	Win w;
	T last = 0;
	Hash h;
	h.add(N).add(Bits);
	int mode = 0;
	unsigned len = run_length(rng, 1 + rng.below((N > 256 ? 2 : 4) * N + 20), 100000), same = 0;
	for (unsigned i = 0; i < len; i++) {
		if (rng.chance(1, 5))
			mode = rng.below(6);
		if (i && rng.chance(1, 4))
			VF_EQ((u64)f.val(), w.mean_last(N), "moving-average-val");
		T x = draw<T>(rng, Bits, mode, last);
		same = (i && x == last) ? same + 1 : 1;
		last = x;
		w.push(x);
		VF_LOG("MovingAverage<%u> add_val(%llu)", N, (unsigned long long)x);
		VF_EQ((u64)f.add_val(x), w.mean_last(N), "moving-average");
		VF_EQ((u64)f.val(), w.mean_last(N), "moving-average-val");
		if (same >= N) {
			VF_EQ((u64)f.val(), (u64)x, "moving-average-converges");
			VF_COVER("converged_to_constant");
		}
		h.add(x);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "moving average");
	if (len > N) {
		VF_COVERN("averages_over_full_window", len - N);
		nontrivial(h);
	}
	if (want_sample())
		sample(fmt("MovingAverage<%u>, %u samples of %u bits", N, len, Bits));
}
VF_SUITE(moving_average, 12000, 800000) {
	if (rng.chance(1, 300)) { // windows beyond what a byte or a short counts
		VF_COVER("long_windows");
		switch (rng.below(3)) {
			case 0:
				return moving<512, uint16_t, 16>(rng);
			case 1:
				return moving<4096, unsigned, 20>(rng);
			default:
				if (rng.chance(1, 8))
					return moving<131072, uint8_t, 8>(rng);
				return moving<1024, uint8_t, 8>(rng);
		}
	}
	switch (rng.below(8)) {
		case 0:
			return moving<1, unsigned, 32>(rng);
		case 1:
			return moving<2, uint16_t, 16>(rng);
		case 2:
			return moving<4, uint8_t, 8>(rng);
		case 3:
			return moving<16, unsigned, 12>(rng);
		case 4:
			return moving<64, unsigned, 26>(rng);
		case 5:
			return moving<256, uint16_t, 16>(rng);
		case 6:
			return moving<8, int, 12>(rng);
		default:
			return moving<32, int32_t, 27>(rng);
	}
}

template<unsigned N, typename T, unsigned Bits>
static void over(Rng &rng) {
	Guarded<Oversampler<N, T, Bits>> g;
	u64 sum = 0, n = 0, held = 0;
	T last = 0;
	int mode = 0;
	Hash h;
	h.add(N).add(Bits).add(1);
	unsigned len = run_length(rng, 1 + rng.below(5 * N + 10)), blocks = 0;
	for (unsigned i = 0; i < len; i++) {
		if (rng.chance(1, 5))
			mode = rng.below(6);
		if (rng.chance(1, 4))
			VF_EQ((u64)g.obj.val(), held, "oversampler-val");
		T x = draw<T>(rng, Bits, mode, last);
		last = x;
		sum += x;
		if (++n == N) {
			held = sum / N;
			sum = n = 0;
			blocks++;
			VF_COVER("oversampled_blocks");
		}
		VF_LOG("Oversampler<%u> add_val(%llu)", N, (unsigned long long)x);
		VF_EQ((u64)g.obj.add_val(x), held, "oversampler-block-mean");
		VF_EQ((u64)g.obj.val(), held, "oversampler-val");
		h.add(x);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "oversampler");
	if (blocks)
		nontrivial(h);
}
VF_SUITE(oversampler, 12000, 800000) {
	if (rng.chance(1, 300)) {
		VF_COVER("long_blocks");
		switch (rng.below(3)) {
			case 0:
				return over<512, uint16_t, 16>(rng);
			case 1:
				return over<4096, unsigned, 20>(rng);
			default:
				return over<(1 << 17), uint16_t, 15>(rng);
		}
	}
	switch (rng.below(6)) {
		case 0:
			return over<1, unsigned, 32>(rng);
		case 1:
			return over<2, uint16_t, 16>(rng);
		case 2:
			return over<16, unsigned, 12>(rng);
		case 3:
			return over<64, unsigned, 26>(rng);
		case 4:
			return over<128, uint16_t, 16>(rng);
		default:
			return over<8, int, 12>(rng);
	}
}

template<unsigned N, typename T, unsigned Bits>
static void smooth(Rng &rng) {
	Guarded<SmoothOversampler<N, T, Bits>> g;
	u64 sum = 0, n = 0;
	double held = 0;
	T last = 0;
	int mode = 0;
	Hash h;
	h.add(N).add(Bits).add(2);
	unsigned len = 1 + rng.below(5 * N + 10), blocks = 0;
	for (unsigned i = 0; i < len; i++) {
		if (rng.chance(1, 5))
			mode = rng.below(6);
		T x = draw<T>(rng, Bits, mode, last);
		last = x;
		sum += x;
		if (++n == N) {
			held = (double)sum / N;
			sum = n = 0;
			blocks++;
			VF_COVER("smooth_blocks");
		}
		VF_LOG("SmoothOversampler<%u> add_val(%llu)", N, (unsigned long long)x);
		float r = g.obj.add_val(x);
		VF_CHECK(std::abs(r - held) <= held * 3e-7, "smooth-block-mean", "observed %.9g, mean is %.9g", r, held);
		VF_CHECK(g.obj.val() == r, "smooth-val", "%.9g %.9g", g.obj.val(), r);
		h.add(x);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "smooth oversampler");
	if (blocks)
		nontrivial(h);
}
VF_SUITE(smooth_oversampler, 12000, 800000) {
	if (rng.chance(1, 300)) {
		VF_COVER("long_smooth_blocks");
		switch (rng.below(3)) {
			case 0:
				return smooth<300, uint16_t, 16>(rng);
			case 1:
				return smooth<5000, unsigned, 19>(rng);
			default:
				return smooth<70000, uint16_t, 15>(rng);
		}
	}
	switch (rng.below(8)) {
		case 6: // as many bits as the sum of the next lower power of two can take
			return smooth<3, unsigned, 31>(rng);
		case 7:
			return smooth<15, unsigned, 29>(rng);
		case 0:
			return smooth<1, unsigned, 12>(rng);
		case 1:
			return smooth<3, uint16_t, 16>(rng);
		case 2:
			return smooth<10, unsigned, 12>(rng);
		case 3:
			return smooth<64, unsigned, 26>(rng);
		case 4:
			return smooth<100, uint16_t, 16>(rng);
		default:
			return smooth<7, unsigned, 20>(rng);
	}
}

VF_SUITE(resizing_oversampler, 25000, 2000000) {
	unsigned size = 1;
	std::optional<Guarded<ResizingOversampler>> g;
	if (rng.chance(1, 2))
		g.emplace();
	else
		g.emplace(size = 1 + rng.below(20));
	unsigned more = rng.chance(1, 200) ? rng.pick<unsigned>({250, 2000, 30000}) : 0;
	struct M {
		double sum = 0, mag = 0, held = 0, tol = 0;
		unsigned n = 0;
	} m, m2;
	unsigned size2 = 1;
	ResizingOversampler other;
	bool saved = false;
	Hash h;
	h.add(size).add(3);
	unsigned len = run_length(rng, 1 + rng.below(120) + 5 * more, 100000);
	bool shrunk = false, grew = false;
	auto agree = [&](float r, const char *key) {
		VF_CHECK(std::abs(r - m.held) <= m.tol, key, "observed %.9g, mean is %.9g (+-%g)", r, m.held, m.tol);
	};
	auto emit = [&](unsigned over) {
		m.held = m.sum / over;
		m.tol = (m.n + 2) * 6e-8 * (m.mag / over) + 1e-30;
		m.sum = m.mag = 0;
		m.n = 0;
	};
	for (unsigned i = 0; i < len; i++) {
		unsigned k = rng.below(20 + more);
		if (k == 0) {
			unsigned s = 1 + rng.below(rng.chance(1, 3) ? 3 : 25) + more;
			VF_LOG("set_size(%u) with %u collected", s, m.n);
			g->obj.set_size(s);
			if (m.n >= s) {
				emit(m.n);
				shrunk = true;
				VF_COVER("shrunk_below_collected");
			} else if (m.n && s > size) {
				grew = true;
				VF_COVER("grown_mid_block");
			}
			size = s;
			h.add(1000 + s);
			agree(g->obj.val(), "resize-mean");
		} else if (k == 1 && rng.chance(1, 3)) {
			VF_LOG("reset%s", "");
			g->obj.reset();
			m = {};
			VF_CHECK(g->obj.val() == 0.f, "reset-value", "%g", g->obj.val());
			h.add(999);
		} else if (k == 2) {
			if (saved && rng.chance(1, 2)) {
				VF_LOG("assign back%s", "");
				g->obj = other;
				m = m2;
				size = size2;
				VF_COVER("assigned");
			} else {
				VF_LOG("assign out%s", "");
				other = g->obj;
				m2 = m;
				size2 = size;
				saved = true;
			}
			h.add(998);
		} else {
			float x = rng.anyfloat(-10, 12);
			m.sum += x;
			m.mag += std::abs(x);
			m.n++;
			if (m.n >= size) {
				emit(size);
				VF_COVER("resizing_blocks");
				if (more)
					VF_COVER("long_resizing_blocks");
			}
			VF_LOG("add_val(%g) size %u", x, size);
			agree(g->obj.add_val(x), "resizing-block-mean");
			agree(g->obj.val(), "resizing-val");
			h.addf(x);
		}
	}
	VF_CHECK(g->intact(), "writes-outside", "%s", "resizing oversampler");
	if (shrunk || grew)
		nontrivial(h);
}

template<size_t D>
static void quad(Rng &rng) {
	using F = NonLinearOnePoleLp<float, TransferQuadratic<D>>;
	float x = (float)rng.real(-.5, .5) * D;
	float old = rng.chance(1, 2) ? (float)rng.real(-.5, .5) * D : 0.f;
	F a(old);
	QuadraticOnePoleLp<D> b;
	float oldb = 0;
	bool constant = rng.chance(1, 3);
	Hash h;
	h.add(D).addf(old);
	double lo = std::min(old, 0.f), hi = std::max(old, 0.f);
	unsigned len = 2 + rng.below(60);
	VF_CHECK(a.val() == old, "initial-state", "%g %g", a.val(), old);
	for (unsigned i = 0; i < len; i++) {
		if (!constant)
			x = rng.chance(1, 8) ? x : (float)rng.real(-.5, .5) * D;
		lo = std::min<double>(lo, x);
		hi = std::max<double>(hi, x);
		auto step = [&](auto &f, float &prev) {
			double d = (double)x - prev, want = prev + std::abs(d) * d / D;
			VF_LOG("quadratic/%zu state %.9g input %.9g", D, prev, x);
			float r = f.add_val(x);
			double tol = 4e-7 * (std::abs(prev) + std::abs(want) + std::abs(x)) + 1e-30;
			VF_CHECK(std::abs(r - want) <= tol, "quadratic-step", "observed %.9g, definition gives %.9g", r, want);
			VF_CHECK(f.val() == r, "filter-val", "%.9g %.9g", f.val(), r);
			// |d| <= D: the step never passes the input
			VF_CHECK(std::abs((double)r - x) <= std::abs(d) + tol, "quadratic-overshoot", "from %g to %g for %g", prev, r, x);
			VF_CHECK(r >= lo - tol && r <= hi + tol, "leaves-input-range", "%.9g outside [%.9g, %.9g]", r, lo, hi);
			prev = r;
		};
		step(a, old);
		step(b, oldb);
		h.addf(x);
	}
	VF_COVERN("one_pole_steps", 2 * len);
	nontrivial(h);
}
template<size_t N, size_t D>
static void hyst(Rng &rng) {
	float flat = (float)N / D;
	float old = (float)rng.real(-100, 100), oldb = 0;
	NonLinearOnePoleLp<float, TransferHysteresis<N, D>> a(old);
	HysteresisFilter<N, D> b;
	Hash h;
	h.add(N).add(D).addf(old);
	bool moved = false, kept = false;
	float x = old;
	for (unsigned i = 0, len = 2 + rng.below(60); i < len; i++) {
		switch (rng.below(4)) {
			case 0:
				x = (float)rng.real(-100, 100);
				break;
			case 1:
				x = old + (float)rng.real(-1.2, 1.2) * flat;
				break;
			case 2:
				x = oldb + (float)rng.real(-1.2, 1.2) * flat;
				break;
			default:
				x = old + (rng.chance(1, 2) ? flat : -flat) * (float)rng.pick({.5, .999, 1.001, 2.});
		}
		auto step = [&](auto &f, float &prev) {
			double d = (double)x - prev;
			VF_LOG("hysteresis %zu/%zu state %.9g input %.9g", N, D, prev, x);
			float r = f.add_val(x);
			double tol = 4e-7 * (std::abs(prev) + std::abs(x) + flat) + 1e-30;
			VF_CHECK(f.val() == r, "filter-val", "%.9g %.9g", f.val(), r);
			if (std::abs(d) <= flat * (1 - 1e-6) - tol) {
				VF_CHECK(r == prev, "moves-inside-band", "state %.9g input %.9g became %.9g", prev, x, r);
				kept = true;
				VF_COVER("kept_inside_band");
			} else {
				double want = prev + (d > flat ? d - flat : d < -flat ? d + flat : 0);
				VF_CHECK(std::abs(r - want) <= tol, "hysteresis-step", "observed %.9g, definition gives %.9g", r, want);
				moved = true;
				VF_COVER("moved_outside_band");
			}
			prev = r;
		};
		step(a, old);
		step(b, oldb);
		h.addf(x);
	}
	if (moved && kept)
		nontrivial(h);
}
VF_SUITE(hysteresis_int, 20000, 1000000) {
	HysteresisFilter<6, 2, int> f;
	int s = 0;
	Hash h;
	for (unsigned i = 0, len = 1 + rng.below(60); i < len; i++) {
		int x = rng.chance(1, 2) ? s + (int)rng.range(-6, 6) : (int)rng.range(-100000, 100000);
		VF_LOG("int hysteresis state %d input %d", s, x);
		s = std::clamp(s, x - 3, x + 3);
		VF_EQ(f.add_val(x), s, "hysteresis-integer");
		VF_EQ(f.val(), s, "filter-val");
		h.add(x);
	}
	nontrivial(h);
}
VF_SUITE(one_pole, 20000, 1500000) {
	switch (rng.below(8)) {
		case 0:
			return quad<1>(rng);
		case 1:
			return quad<16>(rng);
		case 2:
			return quad<4096>(rng);
		case 3:
			return quad<100>(rng);
		case 4:
			return hyst<1, 1>(rng);
		case 5:
			return hyst<1, 4>(rng);
		case 6:
			return hyst<40, 7>(rng);
		default:
			return hyst<0, 3>(rng);
	}
}

VF_SUITE(cascades, 15000, 800000) {
	NoFilter<int> nf;
	VF_EQ(nf.val(), 0, "no-filter-initial");
	CascadingFilter<unsigned, MovingAverage<4>, MovingAverage<8>> c;
	CascadingFilter<unsigned, Oversampler<4>, MovingAverage<2>> o;
	CascadingFilter<float, NoFilter<float>, QuadraticOnePoleLp<64>> q;
	Win first, second, second_o;
	u64 osum = 0, on = 0, oheld = 0;
	double qs = 0;
	float qx = 0;
	Hash h;
	unsigned reads = 0;
	for (unsigned i = 0, len = 1 + rng.below(80); i < len; i++) {
		if (rng.chance(2, 3)) {
			unsigned x = rng.below(4096);
			int y = rng.anyint<int>();
			VF_EQ(nf.add_val(y), y, "no-filter");
			VF_EQ(nf.val(), y, "no-filter");
			first.push(x);
			VF_LOG("cascade add_val(%u)", x);
			VF_EQ((u64)c.add_val(x), first.mean_last(4), "cascade-first-stage");
			osum += x;
			if (++on == 4) {
				oheld = osum / 4;
				osum = on = 0;
			}
			VF_EQ((u64)o.add_val(x), oheld, "cascade-first-stage");
			qx = (float)rng.real(-30, 30);
			VF_CHECK(q.add_val(qx) == qx, "cascade-first-stage", "%g", qx);
			h.add(x);
		} else {
			reads++;
			second.push(first.mean_last(4));
			VF_LOG("cascade val()%s", "");
			VF_EQ((u64)c.val(), second.mean_last(8), "cascade-second-stage");
			second_o.push(oheld);
			VF_EQ((u64)o.val(), second_o.mean_last(2), "cascade-second-stage");
			double d = qx - qs;
			double want = qs + std::abs(d) * d / 64;
			float r = q.val();
			VF_CHECK(std::abs(r - want) <= 1e-4, "cascade-second-stage", "%.9g, definition gives %.9g", r, want);
			qs = r;
			h.add(5000);
		}
	}
	if (reads) {
		VF_COVERN("cascade_reads", reads);
		nontrivial(h);
	}
}
