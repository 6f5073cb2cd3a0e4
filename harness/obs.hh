// The questions that can be asked of the components of comps.hh: everything that is const, or is an accessor by its
// documentation or name, and does not consume what it reports (is_just_pressed, isChanged, take_change, get ... do).
#pragma once
#include "comps.hh"
#include "util/colors_rgb565.hh"

namespace comps
{
struct Questions {
	u64 (*by_const)(const void *, Rng &) = nullptr; // const members only
	u64 (*other)(void *, Rng &) = nullptr;			// accessors that lack the const
};
inline std::vector<std::pair<std::string_view, Questions>> &questions_list() {
	static std::vector<std::pair<std::string_view, Questions>> l;
	return l;
}
inline Questions &questions_of(std::string_view name) {
	for (auto &[n, q] : questions_list())
		if (n == name)
			return q;
	return questions_list().emplace_back(name, Questions{}).second;
}
// ASK("name", type, { const members of x, choices by r, answers to h }), ASK_M: members without const
#define ASK(NAME, ...) ASK_I(COMP_CAT(ask_, __COUNTER__), by_const, const, NAME, __VA_ARGS__)
#define ASK_M(NAME, ...) ASK_I(COMP_CAT(ask_, __COUNTER__), other, , NAME, __VA_ARGS__)
#define ASK_I(ID, WHICH, CONST, NAME, TYPE, ...)                                                                       \
	static const bool ID = [] {                                                                                        \
		questions_of(NAME).WHICH = [](CONST void *p, [[maybe_unused]] Rng &r) -> u64 {                                 \
			CONST auto &x = *static_cast<CONST TYPE *>(p);                                                             \
			Hash h;                                                                                                    \
			__VA_ARGS__ return h;                                                                                      \
		};                                                                                                             \
		return true;                                                                                                   \
	}();

template<class X>
inline void ask_ring(const X &x, Hash &h) {
	h.add(x.count()).add(x.num_filled()).add(x.full()).add(x.empty()).add(x.max_size()).add(x.max_capacity());
	h.add(x.get_head_idx()).add(x.get_tail_idx());
}
ASK("CircularBuffer", T_CircularBuffer, {
	ask_ring(x, h);
	h.add(x.peek(r.below(8)));
#ifndef VF_REDUCED
	if (x.count())
		h.add(x.first());
#endif
})
ASK("CircularBufferOpt", T_CircularBufferOpt, { ask_ring(x, h); })
ASK_M("CircularBufferBlock", T_CircularBufferBlock, { h.add(x.size()).add(x.data[r.below(16)]); })
ASK("CircularBufferAccess", ExtRing, { h.add(x.acc.rd_pos()).add(x.acc.wr_pos()).add(x.acc.size()); })
ASK("CircularStack", T_CircularStack, { h.add(x.size()); })
ASK_M("CircularStack", T_CircularStack, { h.add(x.size()).add(x.empty()).add(x.back().value_or(-1)).add(x.max_size()); })
ASK("FixedVector", T_FixedVector, {
	h.add(x.size()).add(x.max_size());
	if (x.size())
		h.add(x.back()).add(x[r.below(x.size())]);
	for (auto e : x)
		h.add(e);
	for (auto e : x.span())
		h.add(e);
})
ASK_M("FixedVector", T_FixedVector, {
	h.add(x.available()).add(x.back());
	for (auto e : x)
		h.add(e);
	for (auto e : x.span())
		h.add(e);
	if (x.size())
		h.add(x[r.below(x.size())]);
})
ASK("SeqMap", T_SeqMap, { h.add(x.size()).add(x.key_exists(r.below(9))); })
ASK_M("SeqMap", T_SeqMap, {
	auto *p = x.get(r.below(9));
	h.add(p ? *p : 77);
})
ASK("SequentialMap", T_SequentialMap, {
	h.add(x.size()).add(x.max_size()).add(x.empty()).add(x.is_full());
	u8 k = r.below(9);
	h.add(x[k]).add(x.contains(k));
	auto f = x.find(k);
	h.add(f == x.end() ? 77 : f->second);
	for (auto &p : x)
		h.add(p.first).add(p.second);
})
ASK_M("SequentialMap", T_SequentialMap, {
	u8 k = r.below(9);
	auto f = x.find(k);
	h.add(f == x.end() ? 77 : f->second);
	for (auto &p : x)
		h.add(p.first).add(p.second);
})
template<class X>
inline void ask_fifo(const X &x, Hash &h) {
	h.add(x.num_filled()).add(x.num_free()).add(x.full()).add(x.empty()).add(x.max_size());
}
ASK("LockFreeFifoSpsc", T_Fifo, { ask_fifo(x, h); })
ASK("LockFreeFifoSpscDyn", DynFifo, { ask_fifo(x.f, h); })
ASK_M("InputBuffer", T_InputBuffer, {
	h.add(x.full()).add(x.size());
	for (auto e : x)
		h.add(e);
})
ASK_M("OutputBuffer", T_OutputBuffer, {
	h.add(x.full()).add(x.size());
	for (auto e : x)
		h.add(e);
})
ASK("ThreadSafePool", TsPool, {
	h.add(x.p.size());
	unsigned i = r.below(4);
	h.add(x.p.is_used(i)).add(x.p.is_used(i + 4));
#ifndef VF_REDUCED
	if (x.p.is_used(i))
		h.add(x.p[i]);
#endif
})
ASK_M("MonotonicAllocator", Arena, { h.add(x.a.free_space()).add(x.a.total_size()); })
ASK("StaticString", T_StaticString, {
	h.add(std::string_view{x}).add(x.length()).add(x.size()).add(x.available()).add(x.is_equal("ab"));
	h.add((u64)(x == StaticString<4>{"abc"})).add(std::string_view{x.c_str()}).add((u64)(x.data() == x.c_str()));
	h.add(std::string_view{static_cast<const char *>(x)});
	for (char c : x)
		h.add(c);
})
ASK("FunctionSized", Fun, { h.add((bool)x.f); })
ASK("Callback", Cb, { h.add((bool)x.c); })
ASK("CompactBinaryWriter", Writer, { h.add(x.w.size()); })
template<class X>
inline void ask_toggler(const X &x, Hash &h) {
	h.add((bool)x).add(x.is_high()).add(x.is_pressed());
}
ASK("Toggler", Toggler, { ask_toggler(x, h); })
ASK("TogglerCompact", TogglerCompact, { ask_toggler(x, h); })
ASK("TogglerCounter", TogglerCounter, {
	ask_toggler(x, h);
	h.add(x.steady_state_count());
})
ASK("Debouncer", T_Debouncer, { ask_toggler(x, h); })
ASK("DebouncerCounter", T_DebouncerCounter, { ask_toggler(x, h); })
ASK("EdgeStateDetector", EdgeStateDetector, {
	h.add(x.changed()).add(x.went_high()).add(x.went_low()).add(x.is_high()).add(x.staying_high()).add(x.staying_low());
})
ASK("SchmittTrigger", cpputil::SchmittTrigger, { ask_toggler(x, h); })
#define ASK_FILTER(NAME, TYPE) ASK_M(NAME, TYPE, { h.addf(x.val()); })
ASK_FILTER("MovingAverage", T_MovingAverage)
ASK_FILTER("Oversampler", T_Oversampler)
ASK_FILTER("SmoothOversampler", T_SmoothOversampler)
ASK_FILTER("NoFilter", NoFilter<>)
ASK_FILTER("QuadraticOnePoleLp", T_Quad)
ASK_FILTER("HysteresisFilter", T_Hyst)
ASK_FILTER("ResizingOversampler", ResizingOversampler)
ASK_M("InterpParam", T_InterpParam, { h.addf(x.get_step_size()); })
ASK_M("InterpParamVar", InterpParamVar<float>, { h.addf(x.get_step_size()); })
ASK_M("InterpParamVariable", InterpParamVariable<float>, { h.addf(x.get_step_size()).add(x.get_num_updates()); })
ASK_M("LatchedParam", T_Latched, { h.add((int)x); })
ASK("Parameter", Parameter<int>, { h.add(x.getValue()).add((int)x); })
ASK("RefParameter", Refd, { h.add(x.p.getValue()).add((int)x.p); })
ASK("Calibrator", Calibrator, {
	float v = fl(r);
	h.addf(x.adjust(v)).addf(x.reverse_calibrate(v)).addf(x.slope()).addf(x.offset());
})
ASK("VoctCalibrator", VoctCalibrator<>, { h.addf(x.offset()).addf(x.slope()); })
ASK_M("TriangleOscillator", T_Tri, { h.add(x.val()); })
ASK_M("PhaseAccum", T_Ramp, { h.add(x.val()); })
ASK_M("DownCounter", T_Down, { h.add(x.val()); })
ASK("InterpArray", Table, {
	float u = unit(r);
	h.addf(x.t.interp_wrap(u)).addf(x.t.interp(u)).addf(x.t.closest(u)).addf(x.t.closest_wrap(u));
	h.addf(x.t.interp_by_index_wrap((float)r.below(20))).addf(x.t.interp_by_index(u * 7.f)).addf(x.t.get(r.below(9)));
	h.addf(x.t[r.below(9)]);
})
ASK("LookupTable", Look, { h.addf(x.t.lookup(fl(r))).addf(x.t(unit(r))); })

// plain values
struct Colours {
	Color a{1, 2, 3};
	RGB565 p{(u8)9, (u8)8, (u8)7};
	HSVColor s{(u8)3, (u8)4, (u8)5};
};
COMP("colour values", Plain, Colours, {
	x.a = Color{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	x.p = RGB565{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	x.s = HSVColor{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	h.add(x.a.red()).add(x.a.green()).add(x.a.blue()).add(x.p.raw());
})
ASK("colour values", Colours, {
	Color b{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	auto see = [&h](Color c) { h.add(c.red()).add(c.green()).add(c.blue()); };
	see(x.a);
	see(x.a + b);
	see(x.a * unit(r));
	see(x.a.blend(b));
	see(x.a.blend(b, (u8)r.next()));
	see(x.a.blend(b, unit(r)));
	see(x.a.combine(b));
	see(x.a.adjust({(u8)r.next(), 128, 3}));
	see(x.s);
	h.add(x.a == b).add(x.a.Rgb565()).add(x.p.raw()).add((u16)x.p).add(x.p.red()).add(x.p.green()).add(x.p.blue());
})
struct Rects {
	RectC c{0, 0, 1, 1};
	Rect d{0, 0, 1, 1};
};
COMP("rectangle values", Plain, Rects, {
	auto v = [&] { return (int)r.below(20) - 10; };
	x.c = {v(), v(), v() + 12, v() + 12};
	x.d = {v(), v(), v() + 12, v() + 12};
	h.add(x.c.left).add(x.d.left);
})
ASK("rectangle values", Rects, {
	RectC o{(int)r.below(9), (int)r.below(9), 10, 11};
	h.add(x.c.width()).add(x.c.height()).add(x.c.center_x()).add(x.c.center_y());
	h.add(x.c.x_intersects(o)).add(x.c.y_intersects(o)).add(x.c.is_intersecting(o));
	h.add(x.d.right()).add(x.d.bottom()).add(x.d.center_x()).add(x.d.center_y());
})
COMP("version values", Plain, VersionUtil::Version, {
	x.set_field(r.below(4), r.below(300));
	h.add(x.major).add(x.minor).add(x.revision);
})
ASK("version values", VersionUtil::Version, {
	VersionUtil::Version o{(u8)r.below(3), (u8)r.below(3), (u8)r.below(3)};
	h.add(x.can_host_version(o)).add(x < o).add(x == o).add(x.is_later(o));
})
struct Message {
	alignas(8) std::array<u8, 40> b{};
	u32 n = 0;
};
COMP("message parser", Plain, Message, {
	CompactBinaryWriter<u16> w{x.b};
	w.field((u16)1, (u32)r.next());
	w.begin_object((u16)2);
	w.field((u16)3, (u16)r.next());
	w.end_object();
	x.n = w.size();
	h.add(x.n);
})
ASK("message parser", Message, {
	const CompactBinaryParser<u16> p{std::span<const u8>{x.b.data(), x.n}};
	u16 k = 1 + r.below(3);
	h.add(p.get<u32>(k).value_or(5)).add(p.get<u16>(k).value_or(5)).add(p.get_size(k));
	const CompactBinaryParser<u16> n{p.get_node(2)};
	h.add(n.get<u16>(3).value_or(5)).add(p.get_node(k).size());
})
struct Frames {
	AudioFrame<int32_t, 24> f{};
};
COMP("audio frame values", Plain, Frames, {
	x.f.set_scaled_output(r.below(2), fl(r) / 8.f);
	h.add(x.f.chan[0]).add(x.f.chan[1]);
})
ASK("audio frame values", Frames, {
	unsigned c = r.below(2);
	h.add(x.f.sign_extend_chan(c)).addf(x.f.scale_input_chan(c));
})
} // namespace comps
