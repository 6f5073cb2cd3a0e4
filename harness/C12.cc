// C12: DoubleBufferStream against a byte-stream model.
#include "vf.hh"
#include "util/doublebuf_stream.hh"
using namespace vf;

template<typename T, size_t N>
static void stream(Rng &rng) {
	std::vector<T> accepted, sent;
	struct Tx {
		T *p;
		size_t n;
		std::vector<T> copy;
	};
	std::vector<Tx> flight; // at most one
	std::vector<T> pending; // accepted, not yet handed to the transmitter
	unsigned starts = 0;
	bool overlap = false, order_bad = false, too_long = false;
	DoubleBufferStream<T, N> *self = nullptr;
	std::function<void()> more;
	std::function<bool(std::span<T>)> tx = [&](std::span<T> s) {
		starts++;
		if (!flight.empty())
			overlap = true;
		if (s.size() > N)
			too_long = true;
		sent.insert(sent.end(), s.begin(), s.end());
		flight.push_back({s.data(), s.size(), std::vector<T>(s.begin(), s.end())});
		// (a completion from in here would interrupt start_tx(), which is documented as unsafe)
		if (auto say = std::exchange(more, nullptr)) // a transmitter which has more to say, e.g. an echo
			say();
		return true;
	};
	auto g = std::make_unique<Guarded<DoubleBufferStream<T, N>>>(tx);
	auto &s = g->obj;
	self = &s;
	T next = 1;
	Hash h;
	unsigned ops = run_length(rng, 10 + rng.below(120), 100000);
	unsigned donew = 1 + rng.below(6);
	for (unsigned k = 0; k < ops && accepted.size() < 20000000; k++) { // both records of the bytes are kept in memory
		bool busy = !flight.empty();
		if (rng.chance(donew, 8)) {
			h.add(1);
			VF_LOG("tx_done (%s, %zu pending)", busy ? "busy" : "idle", pending.size());
			unsigned st = starts;
			if (busy)
				flight.pop_back();
			else
				VF_COVER("spurious_done");
			bool restart = busy && !pending.empty();
			std::vector<T> due = pending, extra;
			size_t sent0 = sent.size();
			if (restart && rng.chance(1, 6)) {
				for (size_t i = 0, n = 1 + rng.below(N + 1); i < n; i++)
					extra.push_back(next++);
				more = [&] {
					VF_COVER("transmit_from_the_transmitter");
					VF_LOG("  transmit %zu from the transmitter", extra.size());
					auto w = extra;
					bool ok = self->transmit(std::span<T>(w.data(), w.size()));
					VF_EQ(ok, w.size() <= N, "accept-result");
					if (!ok)
						next = next - (T)extra.size(), extra.clear();
				};
			}
			s.tx_done_callback();
			VF_EQ(starts - st, restart ? 1u : 0u, "done-starts-pending");
			if (restart) {
				VF_COVER("done_started_pending");
				VF_CHECK(sent.size() == sent0 + due.size() && std::equal(due.begin(), due.end(), sent.begin() + sent0), "pending-content", "%zu expected", due.size());
				VF_CHECK(!flight.empty() && flight[0].copy == due, "pending-content", "%zu expected", due.size());
				pending = extra;
				accepted.insert(accepted.end(), extra.begin(), extra.end());
			}
			more = nullptr;
		} else {
			size_t len = rng.chance(1, 8) ? N + rng.below(3) : rng.below(N + 1);
			if (rng.chance(1, 300))
				len = wild(rng, N, 18); // far too long
			if (len == 0 && !busy)
				len = 1;
			h.add(2).add(len);
			std::vector<T> w;
			for (size_t i = 0; i < len; i++)
				w.push_back(next++);
			std::vector<T> orig = w;
			bool fits = pending.size() + len <= N;
			unsigned st = starts;
			VF_LOG("transmit %zu (%s, %zu pending)", len, busy ? "busy" : "idle", pending.size());
			std::vector<T> extra;
			if (fits && !busy && rng.chance(1, 6)) {
				for (size_t i = 0, n = 1 + rng.below(N + 1); i < n; i++)
					extra.push_back(next++);
				more = [&] {
					VF_COVER("transmit_from_the_transmitter");
					VF_LOG("  transmit %zu from the transmitter", extra.size());
					auto w = extra;
					bool ok = self->transmit(std::span<T>(w.data(), w.size()));
					VF_EQ(ok, w.size() <= N, "accept-result");
					if (!ok)
						next = next - (T)extra.size(), extra.clear();
				};
			}
			bool ok = s.transmit(std::span<T>(w.data(), len));
			more = nullptr;
			VF_EQ(ok, fits, "accept-result");
			VF_CHECK(w == orig, "source-modified", "caller data changed");
			VF_EQ(starts - st, (fits && !busy) ? 1u : 0u, "start-when-idle-only");
			if (ok) {
				accepted.insert(accepted.end(), w.begin(), w.end());
				accepted.insert(accepted.end(), extra.begin(), extra.end());
				pending.insert(pending.end(), extra.begin(), extra.end());
				if (busy)
					pending.insert(pending.end(), w.begin(), w.end());
				else
					VF_CHECK(flight.size() == 1 && flight[0].copy == w, "immediate-content", "%zu expected", len);
			} else {
				next = next - (T)len; // refused data must not appear
				for (auto &x : w)
					x = 0;
				VF_COVER("refused_whole");
			}
		}
		VF_CHECK(!overlap, "overlapping-transmissions", "second transmission while one is in flight");
		VF_CHECK(!too_long, "transmission-too-long", "more than one buffer");
		for (auto &f : flight)
			VF_CHECK(std::equal(f.copy.begin(), f.copy.end(), f.p), "in-flight-data-changed", "%zu elements", f.n);
		VF_CHECK(g->intact(), "storage-overrun", "memory around the stream changed");
	}
	// drain
	for (int i = 0; i < 3; i++) {
		if (!flight.empty())
			flight.pop_back();
		s.tx_done_callback();
		VF_CHECK(!overlap, "overlapping-transmissions", "drain");
	}
	VF_CHECK(flight.empty(), "never-idle", "still transmitting after the drain");
	VF_CHECK(sent == accepted, "stream-content", "%zu accepted, %zu sent", accepted.size(), sent.size());
	VF_COVERN("elements_sent", sent.size());
	nontrivial(h.add(N).add(sizeof(T)));
	if (want_sample())
		sample(fmt("buffer %zu: %zu elements in %u transmissions", N, sent.size(), starts));
}
VF_SUITE(stream, 8000, 500000) {
	switch (rng.chance(1, 100) ? 6 + rng.below(2) : rng.below(6)) {
		case 6:
			VF_COVER("buffers_beyond_a_byte");
			return stream<u16, 300>(rng);
		case 7:
			if (rng.chance(1, 6)) {
				VF_COVER("buffers_beyond_a_short");
				return stream<u32, 66000>(rng);
			}
			return stream<u32, 700>(rng);
		case 0:
			return stream<u8, 1>(rng);
		case 1:
			return stream<u8, 2>(rng);
		case 2:
			return stream<u8, 8>(rng);
		case 3:
			return stream<u32, 3>(rng);
		case 4:
			return stream<u32, 16>(rng);
		default:
			return stream<u64, 64>(rng);
	}
}
