// C13: wear-levelled storage on a simulated flash block with faults and power loss
// injected at every device operation.
#include "vf.hh"
#include "util/wear_level.hh"
using namespace vf;

struct Data {
	u32 seq, a, b, crc;
	static u32 sum(u32 s, u32 a, u32 b) {
		return (u32)mix(mix(mix(s) ^ a) ^ b);
	}
	bool validate() const {
		return crc == sum(seq, a, b) && seq != 0xFFFFFFFF;
	}
	static Data make(u32 s) {
		u32 a = (u32)mix(s + 77), b = (u32)mix(s + 99);
		return {s, a, b, sum(s, a, b)};
	}
	bool operator==(const Data &) const = default;
};
static const Data Blank{0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF};

struct Crash {};
enum Fault { NoFault, PowerBefore, PowerTorn, PowerAfter, FailClean, FailTorn, FailDone };
static const char *fault_name[] = {"none", "power-before", "power-torn", "power-after", "fail-clean", "fail-torn", "fail-done"};

// One flash block: programming clears bits, erasing sets all.
struct Device {
	std::vector<Data> cell;
	std::vector<u32> done; // seq of completely programmed valid data since the last erase, in order
	u64 ops = 0;		   // mutating operations so far
	u64 fault_at = ~0ull;
	Fault fault = NoFault;
	u64 noise = 1;
	bool erased_in_call = false;
	u64 read_fail_mod = 0; // every so many reads fail
	u64 reads = 0, read_fails = 0;
	bool fired = false;
	size_t pos = 0;			   // cells from here up were not tried since the last (re)open or erase
	size_t above_done = 0;	   // one above the latest complete valid data
	bool erase_failed = false; // since the last (re)open
	std::vector<bool> worn; // cells which are not blank after an erase any more
	u64 probes = 0, erases = 0; // since the counters were cleared
	bool checked_reads = false; // a cell which is neither blank nor complete cannot be read
	u64 unreadable = 0;
	void opened() {
		pos = above_done;
		erase_failed = false;
	}

	size_t n() const {
		return cell.size();
	}
	bool at_fault() {
		bool f = ops++ == fault_at;
		fired |= f;
		return f;
	}
	bool read(Data &d, size_t c) {
		if (c >= n())
			fail("read-outside-cells", fmt("read of cell %zu of %zu", c, n()));
		reads++;
		if (read_fail_mod && mix(noise + reads) % read_fail_mod == 0) {
			read_fails++;
			return false; // and the caller's buffer is not touched
		}
		if (checked_reads && !(cell[c] == Blank) && !cell[c].validate()) {
			if (unreadable++ & 1)
				d = cell[c];
			return false;
		}
		d = cell[c];
		return true;
	}
	bool is_writeable(size_t c) {
		if (c > n())
			fail("probe-outside-cells", fmt("is_writeable(%zu) of %zu", c, n()));
		if (++probes > 4 * n() + 16)
			fail("searches-without-end", fmt("%llu cells of %zu asked in one call", (unsigned long long)probes, n()));
		return c < n() && cell[c] == Blank;
	}
	void program(const Data &d, size_t c, int torn) {
		Data m = d;
		if (torn) {
			do {
				noise = mix(noise);
				u32 w[4] = {m.seq, m.a, m.b, m.crc};
				w[0] = d.seq, w[1] = d.a, w[2] = d.b, w[3] = d.crc;
				if (noise % 3 == 0) { // only the first words were programmed
					for (unsigned i = 1 + (noise >> 8) % 3; i < 4; i++)
						w[i] = 0xFFFFFFFF;
				} else if (noise % 3 == 1) { // some bits not programmed yet
					for (unsigned i = 0; i < 4; i++)
						w[i] |= (u32)mix(noise + i) & (u32)mix(noise + 10 + i);
				} else // only one word
					for (unsigned i = 0; i < 4; i++)
						if (i != (noise >> 8) % 4)
							w[i] = 0xFFFFFFFF;
				m = {w[0], w[1], w[2], w[3]};
			} while (m.validate());
		}
		cell[c].seq &= m.seq;
		cell[c].a &= m.a;
		cell[c].b &= m.b;
		cell[c].crc &= m.crc;
		if (cell[c] == d && d.validate())
			done.push_back(d.seq), above_done = c + 1;
	}
	bool write(const Data &d, size_t c) {
		if (c >= n())
			fail("write-outside-cells", fmt("write of cell %zu of %zu", c, n()));
		if (!(cell[c] == Blank))
			fail("write-to-used-cell", fmt("cell %zu is not blank", c));
		pos = std::max(pos, c + 1);
		if (at_fault()) {
			switch (fault) {
				case PowerBefore:
					throw Crash{};
				case PowerTorn:
					program(d, c, 1);
					throw Crash{};
				case PowerAfter:
					program(d, c, 0);
					throw Crash{};
				case FailClean:
					return false;
				case FailTorn:
					program(d, c, 1);
					return false;
				case FailDone:
					program(d, c, 0);
					return false;
				default:
					break;
			}
		}
		program(d, c, 0);
		return true;
	}
	void do_erase() {
		for (auto &c : cell)
			c = Blank;
		for (size_t i = 0; i < worn.size(); i++)
			if (worn[i])
				cell[i] = {(u32)mix(noise + i) | 1, 0, 5, 6};
		erases++;
		done.clear();
		pos = above_done = 0;
		erased_in_call = true;
	}
	bool erase() {
		// the stored data is given up only when no cell is left for the next one
		if (!erase_failed) {
			for (size_t c = pos; c < n(); c++)
				if (cell[c] == Blank)
					fail("erased-with-room-left", fmt("cell %zu of %zu is free and was not tried", c, n()));
			VF_COVER("erases_of_full_blocks");
		}
		if (at_fault()) {
			switch (fault) {
				case PowerBefore:
				case PowerTorn:
					throw Crash{};
				case PowerAfter:
					do_erase();
					throw Crash{};
				case FailClean:
				case FailTorn:
					erase_failed = true;
					return false;
				case FailDone:
					do_erase();
					erase_failed = true;
					return false;
				default:
					break;
			}
		}
		do_erase();
		return true;
	}
};
static Device *dev;

template<size_t N>
struct StaticStorage { // for WearLevel
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	static bool read(Data &d, size_t c) {
		return dev->read(d, c);
	}
	static bool write(const Data &d, size_t c) {
		return dev->write(d, c);
	}
	static bool erase() {
		return dev->erase();
	}
	static bool is_writeable(size_t c) {
		return dev->is_writeable(c);
	}
};
template<size_t N>
struct RefStorage { // for WearLeveler
	using data_t = Data;
	static constexpr size_t NumCells = N;
	Device &d;
	RefStorage(Device &d)
		: d{d} {
	}
	bool read(Data *x, size_t c) {
		return d.read(*x, c);
	}
	bool write(const Data *x, size_t c) {
		return d.write(*x, c);
	}
	bool erase() {
		return d.erase();
	}
	bool is_writeable(size_t c) {
		return d.is_writeable(c);
	}
};
struct Call { // one call of the library
	Call() {
		dev->probes = dev->erases = 0;
	}
};

template<size_t N, bool Leveler>
struct Make {
	using type = WearLevel<StaticStorage<N>>;
	static std::unique_ptr<type> open() {
		return std::make_unique<type>();
	}
};
template<size_t N>
struct Make<N, true> {
	using type = WearLeveler<RefStorage<N>>;
	static std::unique_ptr<type> open() {
		return std::make_unique<type>(*dev);
	}
};

struct Op {
	enum K { Write, WriteInvalid, Read, ReadStale, Reopen, FaultyReads } k;
	u32 seq;
};

// Runs a history with one injected fault; returns the number of mutating device operations.
template<size_t N, bool L>
static u64 run(const std::vector<Op> &hist, const std::vector<Data> &initial, u64 fault_at, Fault fault, u64 noise) {
	Device d;
	d.cell = initial;
	d.fault_at = fault_at;
	d.fault = fault;
	d.noise = noise;
	d.checked_reads = mix(noise ^ 0xECC) & 1;
	dev = &d;
	auto w = Make<N, L>::open();
	d.opened();
	auto expect_read = [&](const char *when, u32 stale) {
		// the caller's buffer holds something valid that was never stored
		Data x = Data::make(stale);
		if (stale == 0)
			x = Blank;
		bool ok = w->read(x);
		bool want = !d.done.empty();
		VF_CHECK(ok == want,
				 ok ? "data-from-nowhere" : "written-data-not-found",
				 "%s: read()=%d but %zu complete writes are in the block (fault %s at operation %llu)",
				 when,
				 ok,
				 d.done.size(),
				 fault_name[fault],
				 (unsigned long long)fault_at);
		if (ok)
			VF_CHECK(x == Data::make(d.done.back()),
					 "not-latest-write",
					 "%s: read %u%s, latest complete write is %u (fault %s at operation %llu)",
					 when,
					 x.seq,
					 x.validate() ? "" : " (corrupt)",
					 d.done.back(),
					 fault_name[fault],
					 (unsigned long long)fault_at);
	};
	expect_read("after first open", 0);
	for (auto &op : hist) {
		switch (op.k) {
			case Op::Write:
			case Op::WriteInvalid: {
				Data x = Data::make(op.seq);
				if (op.k == Op::WriteInvalid)
					x.crc ^= 0x10;
				auto before = d.done;
				d.erased_in_call = false;
				bool was_fired = d.fired;
				VF_LOG("write %u%s", op.seq, op.k == Op::WriteInvalid ? " (not valid data)" : "");
				bool crashed = false, ok = false;
				try {
					Call c;
					ok = w->write(x);
				} catch (Crash &) {
					crashed = true;
					VF_LOG("  power lost");
				}
				bool faulted = d.fired && !was_fired;
				if (!crashed && !faulted) {
					VF_CHECK(ok, "write-failed-on-healthy-device", "write of %u", op.seq);
					if (op.k == Op::Write)
						VF_CHECK(!d.done.empty() && d.done.back() == op.seq, "write-not-stored", "write of %u returned true", op.seq);
				}
				if (ok && op.k == Op::Write)
					VF_CHECK(!d.done.empty() && d.done.back() == op.seq, "write-not-stored", "write of %u returned true", op.seq);
				if (!d.erased_in_call)
					VF_CHECK(d.done.size() >= before.size(), "earlier-data-destroyed", "without an erase");
				if (d.erased_in_call)
					VF_COVER("erases");
				if (crashed) {
					VF_COVER("power_losses");
					w = Make<N, L>::open();
					d.opened();
					expect_read("after power loss", 123456);
				} else if (faulted) {
					VF_COVER("device_failures");
					expect_read("after a device failure", 123457);
				}
				break;
			}
			case Op::Read:
				VF_LOG("read");
				expect_read("read", 0);
				break;
			case Op::ReadStale:
				VF_LOG("read into a buffer with valid-looking content");
				expect_read("read", 987654);
				break;
			case Op::Reopen:
				VF_LOG("reopen");
				w = Make<N, L>::open();
				d.opened();
				expect_read("after reopen", op.seq & 1 ? 0 : 987655);
				break;
			case Op::FaultyReads: {
				VF_LOG("reads with failing device");
				d.read_fail_mod = 1 + op.seq % 3;
				for (int i = 0; i < 4; i++) {
					Data x = Data::make(987656);
					u64 f0 = d.read_fails;
					if (w->read(x)) {
						bool stored = false;
						for (auto s : d.done)
							stored |= x == Data::make(s);
						VF_CHECK(stored, "data-from-nowhere", "read() with failing device returned %u which is not stored", x.seq);
						if (d.read_fails == f0)
							VF_CHECK(x == Data::make(d.done.back()), "not-latest-write", "no read failed");
					}
					if (d.read_fails > f0)
						VF_COVER("failed_reads");
				}
				auto w2 = Make<N, L>::open(); // opening on a failing device stays inside the block
				d.read_fail_mod = 0;
				expect_read("after read failures", 0);
				break;
			}
		}
	}
	w = Make<N, L>::open();
	d.opened();
	expect_read("final reopen", 987657);
	// a healthy device works again whatever happened
	d.fault_at = ~0ull;
	for (u32 i = 0; i < 2 * N + 1; i++) {
		Data x = Data::make(500000 + i);
		Call c;
		VF_CHECK(w->write(x), "write-failed-on-healthy-device", "after the fault");
		expect_read("after recovery", 987658);
	}
	w = Make<N, L>::open();
	d.opened();
	expect_read("after recovery and reopen", 0);
	if (d.unreadable)
		VF_COVER("reads_past_unreadable_cells");
	dev = nullptr;
	return d.ops;
}

template<size_t N, bool L>
static void all_faults(Rng &rng) {
	std::vector<Op> hist;
	std::vector<Data> init(N, Blank);
	if (rng.chance(1, 3)) { // a block that was used for something else
		for (auto &c : init)
			if (rng.chance(2, 3)) {
				do {
					c = {(u32)rng.next(), (u32)rng.next(), (u32)rng.next(), (u32)rng.next()};
				} while (c.validate());
			}
		VF_COVER("blocks_with_foreign_content");
	}
	u32 seq = 1;
	unsigned n = 3 + rng.below(3 * N + 4);
	Hash h;
	for (unsigned i = 0; i < n; i++) {
		Op o{Op::Write, seq};
		switch (rng.below(12)) {
			case 0:
				o.k = Op::Read;
				break;
			case 1:
				o.k = Op::ReadStale;
				break;
			case 2:
			case 3:
				o.k = Op::Reopen;
				break;
			case 4:
				o.k = Op::WriteInvalid;
				break;
			case 5:
				o.k = Op::FaultyReads;
				break;
			default:
				break;
		}
		o.seq = seq++;
		h.add((int)o.k);
		hist.push_back(o);
	}
	u64 noise = rng.next();
	VF_LOG("--- %zu cells, %s, no fault", N, L ? "WearLeveler" : "WearLevel");
	u64 ops = run<N, L>(hist, init, ~0ull, NoFault, noise);
	evaluated(1);
	for (u64 at = 0; at < ops; at++)
		for (int f = PowerBefore; f <= FailDone; f++) {
			VF_LOG("--- %zu cells, %s, fault %s at device operation %llu", N, L ? "WearLeveler" : "WearLevel", fault_name[f], (unsigned long long)at);
			run<N, L>(hist, init, at, (Fault)f, mix(noise + at));
			evaluated(1);
			nontrivial(Hash(h).add(at).add(f).add(N).add(L));
			VF_COVER("fault_points_tried");
		}
	if (want_sample())
		sample(fmt("%zu cells, %s, history of %u operations, %llu device operations x 6 faults", N, L ? "WearLeveler" : "WearLevel", n, (unsigned long long)ops));
}
VF_SUITE(faults, 800, 30000) {
	switch (rng.below(8)) {
		case 0:
			return all_faults<1, false>(rng);
		case 1:
			return all_faults<2, false>(rng);
		case 2:
			return all_faults<4, false>(rng);
		case 3:
			return all_faults<7, false>(rng);
		case 4:
			return all_faults<1, true>(rng);
		case 5:
			return all_faults<2, true>(rng);
		case 6:
			return all_faults<4, true>(rng);
		default:
			return all_faults<7, true>(rng);
	}
}

// several faults in one life: random faults, power cycles and recoveries
template<size_t N, bool L>
static void multi(Rng &rng) {
	Device d;
	d.cell.assign(N, Blank);
	d.noise = rng.next();
	d.checked_reads = d.noise & 1;
	dev = &d;
	auto w = Make<N, L>::open();
	d.opened();
	Hash h;
	u32 seq = 1;
	for (int k = 0; k < 60; k++) {
		d.fault = (Fault)rng.below(7);
		d.fault_at = rng.chance(1, 2) ? d.ops + rng.below(2) : ~0ull;
		if (d.fault == NoFault)
			d.fault_at = ~0ull;
		h.add((int)d.fault);
		bool crashed = false;
		bool fired0 = d.fired;
		d.fired = false;
		try {
			VF_LOG("write %u with fault %s", seq, d.fault_at == ~0ull ? "none" : fault_name[d.fault]);
			Call c;
			bool ok = w->write(Data::make(seq));
			if (ok)
				VF_CHECK(!d.done.empty() && d.done.back() == seq, "write-not-stored", "write %u", seq);
			VF_CHECK(ok || d.fired, "write-failed-on-healthy-device", "write %u", seq);
		} catch (Crash &) {
			crashed = true;
			VF_LOG("  power lost");
		}
		if (d.fired)
			VF_COVER("repeated_faults");
		(void)fired0;
		seq++;
		d.fault_at = ~0ull;
		if (crashed || rng.chance(1, 6)) {
			w = Make<N, L>::open();
			d.opened();
			h.add(100);
		}
		Data x = Data::make(777777);
		bool ok = w->read(x);
		VF_EQ(ok, !d.done.empty(), "presence-after-repeated-faults");
		if (ok)
			VF_CHECK(x == Data::make(d.done.back()), "not-latest-write", "read %u, latest complete write %u", x.seq, d.done.back());
	}
	dev = nullptr;
	nontrivial(h.add(N).add(L));
}
VF_SUITE(repeated_faults, 3000, 200000) {
	switch (rng.below(6)) {
		case 0:
			return multi<1, false>(rng);
		case 1:
			return multi<3, false>(rng);
		case 2:
			return multi<8, false>(rng);
		case 3:
			return multi<1, true>(rng);
		case 4:
			return multi<3, true>(rng);
		default:
			return multi<8, true>(rng);
	}
}

// Cells wear out: from then on they are not blank after an erase. The rest keeps the store working; with none left a
// write fails after one erase.
template<size_t N, bool L>
static void wearing(Rng &rng) {
	Device d;
	d.cell.assign(N, Blank);
	d.noise = rng.next();
	d.checked_reads = d.noise & 1;
	d.worn.assign(N, false);
	dev = &d;
	auto w = Make<N, L>::open();
	d.opened();
	Hash h;
	h.add(N).add(L);
	u32 seq = 1;
	size_t alive = N;
	auto look = [&](const char *when) {
		Data x = Data::make(424242);
		bool ok = w->read(x);
		VF_CHECK(ok == !d.done.empty(), ok ? "data-from-nowhere" : "written-data-not-found", "%s, %zu of %zu cells work", when, alive, N);
		if (ok)
			VF_CHECK(x == Data::make(d.done.back()), "not-latest-write", "%s: read %u, latest complete write %u", when, x.seq, d.done.back());
	};
	for (unsigned k = 0, len = 10 + 6 * N; k < len; k++) {
		if (rng.chance(1, 3)) {
			size_t i = rng.below(N);
			alive -= !d.worn[i];
			d.worn[i] = true;
			h.add(i);
			VF_LOG("cell %zu wears out, %zu left", i, alive);
		}
		bool room = false; // a blank cell which has not been tried
		for (size_t c = d.pos; c < N; c++)
			room |= d.cell[c] == Blank;
		VF_LOG("write %u", seq);
		Call c;
		bool ok = w->write(Data::make(seq));
		VF_CHECK(d.erases <= 1, "erases-repeatedly", "%llu erases in one write", (unsigned long long)d.erases);
		VF_CHECK(ok == (room || alive), ok ? "write-reported-without-a-cell" : "write-failed-with-working-cells", "%zu of %zu cells work", alive, N);
		if (ok) {
			VF_CHECK(!d.done.empty() && d.done.back() == seq, "write-not-stored", "write of %u returned true", seq);
			if (alive < N)
				VF_COVER("writes_around_worn_cells");
		} else
			VF_COVER("writes_on_a_worn_out_block");
		seq++;
		look("after a write");
		if (rng.chance(1, 5)) {
			VF_LOG("reopen");
			w = Make<N, L>::open();
			d.opened();
			h.add(77);
			look("after reopening");
		}
	}
	dev = nullptr;
	nontrivial(h);
}
VF_SUITE(worn_cells, 2500, 200000) {
	switch (rng.below(6)) {
		case 0:
			return wearing<1, false>(rng);
		case 1:
			return wearing<3, false>(rng);
		case 2:
			return wearing<8, false>(rng);
		case 3:
			return wearing<1, true>(rng);
		case 4:
			return wearing<3, true>(rng);
		default:
			return wearing<8, true>(rng);
	}
}

// Blocks with more cells than fit one and two bytes.
template<size_t N, bool L>
static void wide(Rng &rng) {
	Device d;
	d.cell.assign(N, Blank);
	d.noise = rng.next();
	d.checked_reads = d.noise & 1;
	dev = &d;
	u32 seq = 1;
	size_t first = rng.chance(1, 2) ? rng.below(N + 1) : N - rng.below(3); // cells already written
	for (size_t i = 0; i < first; i++) {
		d.cell[i] = Data::make(seq);
		d.done.push_back(seq++);
	}
	d.above_done = first;
	auto w = Make<N, L>::open();
	d.opened();
	Hash h;
	h.add(N).add(L).add(first);
	for (unsigned k = 0, len = 2 + rng.below(6); k < len; k++) {
		size_t n = rng.chance(1, 3) ? N + rng.below(3) : 1 + rng.below(rng.chance(1, 2) ? 20 : N);
		h.add(n);
		VF_LOG("%zu writes into %zu cells, last complete %zu", n, N, d.above_done);
		while (n--) {
			Call c;
			size_t at = d.above_done;
			VF_EQ(w->write(Data::make(seq)), true, "write-failed-on-healthy-device");
			VF_EQ(d.above_done, at == N ? 1 : at + 1, "cells-not-used-in-turn");
			VF_CHECK(d.done.back() == seq, "write-not-stored", "write of %u returned true", seq);
			seq++;
			Data x = Data::make(1);
			VF_CHECK(w->read(x) && x == Data::make(d.done.back()), "not-latest-write", "read %u, latest %u", x.seq, d.done.back());
		}
		w = Make<N, L>::open();
		d.opened();
		Data x = Data::make(1);
		VF_CHECK(w->read(x) && x == Data::make(d.done.back()), "not-latest-write", "after reopening: read %u, latest %u", x.seq, d.done.back());
		VF_COVER("wide_blocks_reopened");
		if (N > 65536 && d.above_done > 65536)
			VF_COVER("cells_beyond_a_short");
	}
	dev = nullptr;
	nontrivial(h);
}
VF_SUITE(wide_blocks, 300, 10000) {
	bool l = rng.chance(1, 2);
	if (rng.chance(1, 30))
		return l ? wide<70000, true>(rng) : wide<70000, false>(rng);
	return rng.chance(1, 2) ? l ? wide<256, true>(rng) : wide<256, false>(rng) : l ? wide<600, true>(rng) : wide<600, false>(rng);
}
