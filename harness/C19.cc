// C19: periodic and change polling against an unbounded clock model.
#include "vf.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"
using namespace vf;

template<typename T>
static void events(Rng &rng) {
	using W = unsigned __int128;
	using U = std::make_unsigned_t<T>;
	constexpr unsigned B = sizeof(T) * 8;
	const W range = (W)1 << B;
	// signed counters are polled within half their range
	const W reach = std::is_unsigned_v<T> ? range : range / 2;
	W period;
	switch (rng.below(4)) {
		case 0:
			period = rng.below(6);
			break;
		case 1:
			period = (W)rng.below((u64)std::min<W>(reach - 1, 1000000));
			break;
		default:
			period = (W)((U)rng.next() >> rng.below(B)) % (reach / 2);
	}
	if (std::is_unsigned_v<T> && rng.chance(1, 16))
		period = range - 1 - rng.below(3);
	PollEvent<T> p{(T)period};
	W now = 0, last = 0; // true time; the counter shows its low bits
	unsigned fired = 0, wrapped = 0;
	VF_LOG("period %llu on a %u-bit %s counter", (unsigned long long)period, B, std::is_signed_v<T> ? "signed" : "unsigned");
	Hash h;
	h.add(B).add((u64)period);
	for (unsigned i = 0, n = run_length(rng, 4 + rng.below(40), 280000, 15000); i < n; i++) {
		// polled at least once while the elapsed time can still be told
		W room = reach - 1 - (now - last);
		W step;
		switch (rng.below(6)) {
			case 0:
				step = 0;
				break;
			case 1:
				step = rng.below(4);
				break;
			case 2: // exactly due, or one tick early or late
				step = last + period + rng.below(3) > now + 1 ? last + period + rng.below(3) - 1 - now : 1;
				break;
			case 3: // to the neighbourhood of the wrap
				step = range - now % range + rng.below(7);
				step = step > 3 ? step - 3 : step;
				break;
			default:
				step = (W)((U)rng.next() >> rng.below(B));
		}
		step = std::min(step, room);
		if ((now + step) / range != now / range)
			wrapped++;
		now += step;
		bool want = now - last >= period;
		unsigned before = fired;
		bool again = period > 0 && rng.chance(1, 4);
		p.poll((T)(U)now, [&] {
			fired++;
			if (again) { // from inside the action: no period has passed since
				VF_COVER("polled_inside_the_action");
				p.poll((T)(U)now, [&fired] { fired++; });
			}
		});
		VF_LOG("poll at %llu: %u, %llu since the last", (unsigned long long)(U)now, fired - before, (unsigned long long)(now - last));
		VF_CHECK(fired - before == (unsigned)want, "fires-exactly-when-due", "fired %u times, %llu elapsed, period %llu", fired - before, (unsigned long long)(now - last), (unsigned long long)period);
		if (want) {
			VF_COVER("events_fired");
			if (last / range != now / range)
				VF_COVER("fired_across_wrap");
			if (std::is_signed_v<T> && sizeof(T) >= sizeof(int) && (T)(U)now < (T)(U)last)
				VF_COVER("fired_across_the_wrap_of_a_wide_signed_counter");
			last = now;
		} else if (last / range != now / range)
			VF_COVER("not_due_across_wrap");
		h.add((u64)step);
	}
	if (fired && wrapped)
		nontrivial(h);
	if (want_sample())
		sample(fmt("period %llu, %u-bit counter: %u events, %u wraps", (unsigned long long)period, B, fired, wrapped));
}
VF_SUITE(poll_event, 150000, 10000000) {
	switch (rng.below(8)) {
		case 0:
			return events<u8>(rng);
		case 1:
			return events<u16>(rng);
		case 2:
			return events<u32>(rng);
		case 3:
			return events<u64>(rng);
		case 4:
			return events<int8_t>(rng);
		case 5:
			return events<int16_t>(rng);
		case 6:
			return events<int32_t>(rng);
		default:
			return events<long>(rng);
	}
}
// every last time, period and present time of an 8-bit counter
VF_SUITE(enum_poll_event_8bit, 256, 256) {
	u64 n = 0;
	for (unsigned period = 0; period < 256; period++)
		for (unsigned el = 0; el < 256; el++, n++) {
			// make it fire at time idx first: with a period <= idx it fires at once
			PollEvent<u8> p{(u8)period};
			unsigned fired = 0;
			auto act = [&] { fired++; };
			p.poll((u8)idx, act);
			VF_CHECK(fired == (idx >= period), "first-poll", "time %u period %u", (unsigned)idx, period);
			u8 base = fired ? (u8)idx : 0;
			u8 now = (u8)(base + el);
			fired = 0;
			p.poll(now, act);
			VF_CHECK(fired == (el >= period), "fires-exactly-when-due", "last %u now %u period %u", base, now, period);
		}
	evaluated(n);
}

VF_SUITE(poll_change, 150000, 8000000) {
	u32 period = rng.pick<u32>({0, 1, 2, 10, 1000, 0x7fffffff});
	if (rng.chance(1, 3))
		period = (u32)rng.next() >> rng.below(32);
	PollChange p{period};
	u64 now = 0, last = 0;
	bool forced = false, known = false, pending = false;
	VF_LOG("period %u", period);
	Hash h;
	h.add(period);
	for (unsigned i = 0, n = run_length(rng, 4 + rng.below(40), 280000, 15000); i < n; i++) {
		switch (rng.below(8)) {
			case 0:
				VF_LOG("force");
				p.force_next_poll();
				forced = true;
				break;
			case 1:
				if (rng.chance(1, 3)) {
					VF_LOG("reset");
					p.reset();
					pending = true;
				}
				break;
			case 2:
				VF_EQ(p.take_change(), pending, "change-reported-once");
				if (pending)
					VF_COVER("changes_taken");
				pending = false;
				break;
			default: {
				u64 room = 0xffffffffull - (now - last);
				u64 step = rng.chance(1, 3) ? rng.below(3) : rng.chance(1, 2) ? (now < last + period ? last + period - now - rng.below(2) : 1) : (u32)rng.next() >> rng.below(32);
				if (rng.chance(1, 6))
					step = 0x100000000ull - (now & 0xffffffffu) + rng.below(4);
				step = std::min<u64>(step, room);
				now += step;
				bool state = rng.chance(1, 2);
				bool due = forced || now - last >= period, forced_inside = false;
				VF_LOG("poll at %u state %d due %d%s", (u32)now, state, due, forced ? " forced" : "");
				if (rng.chance(1, 2)) {
					unsigned calls = 0;
					bool force = rng.chance(1, 5);
					p.poll((u32)now, [&] {
						calls++;
						if (force) // for the poll after this one
							p.force_next_poll();
						return state;
					});
					forced_inside = force && due;
					VF_CHECK(calls == (unsigned)due, "state-read-only-when-due", "%u calls", calls);
				} else
					p.poll((u32)now, state);
				if (due) {
					if (forced && now - last < period)
						VF_COVER("forced_before_due");
					if (now >> 32 != last >> 32)
						VF_COVER("change_polls_across_wrap");
					forced = forced_inside;
					if (forced)
						VF_COVER("forced_inside_the_state_function");
					last = now;
					if (state != known) {
						known = state;
						pending = true;
						VF_COVER("changes_seen");
					}
				} else if (state != known)
					VF_COVER("changes_not_yet_due");
				h.add(step).add(state);
				if (rng.chance(2, 3)) {
					VF_EQ(p.take_change(), pending, "change-reported-exactly-when-polled");
					pending = false;
				}
			}
		}
	}
	nontrivial(h);
}
