// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include <deque>
#include <EKF/RingBuffer.h>

struct S { uint64_t time_us; uint32_t id; };
// reference: bounded list of samples in insertion order
struct Model {
	std::deque<S> q; size_t cap;
	void push(S s) { q.push_back(s); if (q.size() > cap) { q.pop_front(); } }
	bool pop(uint64_t t, S *out)
	{
		for (int i = (int)q.size() - 1; i >= 0; i--) if (t >= q[i].time_us && t - q[i].time_us < 100000) { *out = q[i]; q.erase(q.begin(), q.begin() + i + 1); return true; }
		return false;
	}
};
LAW(history, 400000, 8000000)
{
	const size_t cap0 = c.g.below(5) ? 1 + c.g.below(12) : 1 + c.g.below(255);
	const bool dflt = c.g.below(3) == 0;
	RingBuffer<S> *b = dflt ? new RingBuffer<S>() : new RingBuffer<S>(cap0);
	struct Del { RingBuffer<S> *p; ~Del() { delete p; } } del{b};
	Model m; m.cap = dflt ? 1 : cap0; uint64_t t = 1000000 + c.g.below(1ull << 33); uint32_t id = 1;
	const uint64_t gap = c.g.pick<uint64_t>({5000, 10000, 30000, 60000, 120000}); const int n = 1 + (int)c.g.below(m.cap > 20 ? 600 : 80); int pops = 0, hits = 0, wraps = 0;
	c.note("capacity %zu", m.cap);
	for (int k = 0; k < n; k++) {
		const int op = (int)c.g.below(20);
		if (op < 10) {
			switch (c.g.below(8)) { case 0: break; case 1: t += gap * (1 + c.g.below(20)); break; default: t += c.g.below(2 * gap); }
			S s{t, id++}; if (c.g.below(20) == 0) { s.time_us = t - c.g.below(100000); c.cls("out-of-order push"); }
			if (m.q.size() == m.cap) { wraps++; c.cls("overwrite"); }
			b->push(s); m.push(s); c.note("push %llu", (unsigned long long)s.time_us);
		} else if (op < 18) {
			uint64_t q;
			if (m.q.empty() || c.g.below(3) == 0) { q = t + c.g.below(150000); }
			else {
				const S &s = m.q[c.g.below(m.q.size())];
				switch (c.g.below(6)) { case 0: q = s.time_us; c.cls("pop at exact time"); break; case 1: q = s.time_us - 1; break; case 2: q = s.time_us + 99999; c.cls("pop at window end"); break; case 3: q = s.time_us + 100000; c.cls("pop just past window"); break; case 4: q = s.time_us > 200000 ? s.time_us - c.g.below(100000) : s.time_us; break; default: q = s.time_us + c.g.below(100000); }
			}
			S a{77, 77}, e{77, 77}; const bool r = b->pop_first_older_than(q, &a), w = m.pop(q, &e); pops++;
			c.note("pop %llu -> %d", (unsigned long long)q, (int)r);
			PBT_CHECK(c, r == w, "pop for time %llu returned %d, expected %d", (unsigned long long)q, (int)r, (int)w);
			PBT_CHECK(c, a.time_us == e.time_us && a.id == e.id, "pop for time %llu gave sample %u at %llu, expected %u at %llu", (unsigned long long)q, a.id, (unsigned long long)a.time_us, e.id, (unsigned long long)e.time_us);
			if (r) { hits++; c.cls(m.q.empty(), "pop emptied the buffer"); c.cls(!m.q.empty(), "pop left newer samples"); } else { c.cls("pop without match"); }
		} else if (op == 18) {
			const uint8_t sz = (uint8_t)(c.g.below(3) ? 1 + c.g.below(12) : (c.g.below(2) ? m.cap : 0));
			const bool r = b->allocate(sz); c.note("allocate %d", sz);
			PBT_CHECK(c, r == (sz != 0), "allocate(%d) returned %d", sz, (int)r);
			if (sz == 0) { c.cls("allocate zero"); } else if (sz == m.cap) { c.cls("allocate same size"); } else { m.q.clear(); m.cap = sz; c.cls("reallocate"); }
		}
		PBT_CHECK(c, b->valid(), "buffer became invalid"); PBT_CHECK(c, b->get_length() == m.cap, "capacity %d, expected %zu", b->get_length(), m.cap);
		if (!m.q.empty()) {
			PBT_CHECK(c, b->get_newest().id == m.q.back().id && b->get_newest().time_us == m.q.back().time_us, "newest is %u, expected %u", b->get_newest().id, m.q.back().id);
			PBT_CHECK(c, b->get_oldest().id == m.q.front().id && b->get_oldest().time_us == m.q.front().time_us, "oldest is %u, expected %u", b->get_oldest().id, m.q.front().id);
			PBT_CHECK(c, (*b)[b->get_oldest_index()].id == m.q.front().id, "indexing the oldest entry gives another sample");
			for (size_t i = 0; i < m.q.size(); i++) { PBT_CHECK(c, (*b)[(b->get_oldest_index() + i) % m.cap].id == m.q[i].id, "entry %zu after the oldest is not in insertion order", i); }
		}
	}
	c.nontrivial(hits > 0 && (wraps > 0 || pops > hits));
}
int main(int argc, char **argv) { return pbt::run("U02", "case = history of push/pop/allocate on one buffer with times placed on, just before, inside and just past the 0.1 s window; non-trivial when a pop hit and an overwrite or a miss also happened", argc, argv); }
