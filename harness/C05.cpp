#include "Util/GraphLock.h"
#include "Util/Latch.h"
#include "h.h"
#include <thread>
#include <atomic>
using namespace std; using namespace H;
static ull tid(Rng& R) { static const ull V[] = {0, 1, 2, 7, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0xfffffffffffffffeULL}; return V[R.below(10)]; }
// holders as the callers see them
struct Model { bool sr; ull x = INVALID_TID; multiset<ull> s; };
SUB(sequence, 20000, 400000) {
	Model m; m.sr = R.coin(3, 4); GLatch g; int n = R.range(1, 60); vector<ull> ts; for (int i = 0; i < 4; i++) ts.push_back(tid(R)); note("serializable=%d ", m.sr);
	for (int i = 0; i < n; i++) {
		ull t = R.pick(ts); bool held = m.s.count(t);
		switch (R.below(m.sr ? 7 : 3)) {
		case 0: { if (m.sr && held) continue; bool want = m.x == t || (m.x == INVALID_TID && (!m.sr || m.s.empty())); note("X%llu ", t); CHECK(g.tryexclusivelatch(t, m.sr) == want, "exclusive request of %llu answered %d", t, !want); if (want) m.x = t; break; }
		case 1: { bool want = m.x == t; note("UX%llu ", t); CHECK(g.unlatch(t, true, m.sr) == want, "exclusive release of %llu answered %d", t, !want); if (want) m.x = INVALID_TID; break; }
		case 2: { CHECK(g.is_own_latch(t) == (m.x == t), "is_own_latch(%llu) wrong", t); break; }
		case 3: { bool want = m.x == t || m.x == INVALID_TID; note("S%llu ", t); CHECK(g.trysharedlatch(t) == want, "shared request of %llu answered %d", t, !want); if (want && m.x != t) m.s.insert(t); break; }
		case 4: { if (!held) continue; note("US%llu ", t); CHECK(g.unlatch(t, false, true), "release of a held shared latch by %llu refused", t); m.s.erase(m.s.find(t)); break; }
		case 5: { if (!held && m.x == INVALID_TID) continue; bool want = held && m.s.size() == 1; note("UP%llu ", t); CHECK(g.tryupgradelatch(t) == want, "upgrade of %llu answered %d", t, !want); if (want) { m.s.clear(); m.x = t; } break; }
		case 6: { bool want = m.x == t; note("DN%llu ", t); CHECK(g.trydowngradelatch(t) == want, "downgrade of %llu answered %d", t, !want); if (want) { m.x = INVALID_TID; m.s.insert(t); } break; }
		}
		ull want = m.s.size() + (m.sr && m.x != INVALID_TID);
		CHECK(g.get_TID() == m.x, "holder %llu, want %llu", g.get_TID(), m.x); CHECK(g.get_readers() == want, "reader count %llu, want %llu", g.get_readers(), want);
		CHECK(g.is_exclusive_latched(m.sr) == (m.x != INVALID_TID) && g.is_shared_latched(m.sr) == (want != 0) && g.is_latched(m.sr) == (want || m.x != INVALID_TID), "status functions wrong");
	}
	for (ull big : {0x80000000ULL, 0x1ffffffffULL}) { GLatch h(INVALID_TID, big); CHECK(h.get_readers() == big && h.trysharedlatch(5) && h.get_readers() == big + 1 && !h.tryexclusivelatch(3, true) && h.get_readers() == big + 1, "large reader counts wrong"); }
	nontrivial();
}
SUB(threads, 40, 2000) {
	GLatch g; bool sr = R.coin(2, 3); const int N = R.range(2, 4); atomic<int> writers{0}, readers{0}; atomic<long> bad{0}, grants{0}; note("%d threads serializable=%d", N, sr);
	vector<thread> th; uint64_t seed = R.next();
	for (int k = 0; k < N; k++) th.emplace_back([&, k] {
		Rng q(seed + k); ull me = k + 1; 
		for (int i = 0; i < 1500 && !bad; i++) {
			if (!sr || q.coin()) {
				if (!g.tryexclusivelatch(me, sr)) continue;
				grants++; if (writers++ != 0 || readers != 0) bad++;
				if (!g.is_own_latch(me)) bad++;
				if (sr && q.coin()) { readers++; writers--; if (!g.trydowngradelatch(me)) bad++; if (writers != 0) bad++; readers--; if (!g.unlatch(me, false, sr)) bad++; }
				else { writers--; if (!g.unlatch(me, true, sr)) bad++; }
			} else {
				if (!g.trysharedlatch(me)) continue;
				grants++; readers++; if (writers != 0) bad++;
				if (q.coin()) { readers--; if (g.tryupgradelatch(me)) { if (writers++ != 0 || readers != 0) bad++; writers--; if (!g.unlatch(me, true, sr)) bad++; } else if (!g.unlatch(me, false, sr)) bad++; }
				else { readers--; if (!g.unlatch(me, false, sr)) bad++; }
			}
		}
	});
	for (auto& t : th) t.join();
	CHECK(!bad, "two holders at once or a holder lost its latch"); CHECK(!g.is_latched(sr), "latch still held after every release: TID %llu readers %llu", g.get_TID(), g.get_readers());
	CHECK(grants > 0, "no request granted"); nontrivial();
}
SUB(wrappers, 2000, 20000) {
	Latch l; spinlock s; note("latch wrappers");
	auto other = [&](function<bool()> f) { bool r = false; thread t([&] { r = f(); }); t.join(); return r; };
	l.lockExclusive(); CHECK(!other([&] { return l.tryLockExclusive(); }) && !other([&] { return l.tryLockShared(); }), "exclusive latch shared"); CHECK(l.unlock(), "unlock refused");
	l.lockShared(); CHECK(!other([&] { return l.tryLockExclusive(); }), "writer beside a reader"); CHECK(other([&] { bool r = l.tryLockShared(); if (r) l.unlock(); return r; }), "reader refused beside a reader"); l.unlock();
	CHECK(l.tryLockExclusive(), "free latch refused"); CHECK(!other([&] { return l.tryLockShared(); }), "tryLockExclusive did not exclude"); l.unlock(); CHECK(l.tryLockShared(), "free latch refused"); CHECK(!other([&] { return l.tryLockExclusive(); }), "tryLockShared did not hold"); l.unlock();
	CHECK(s.try_lock(), "free spin lock refused"); CHECK(!other([&] { return s.try_lock(); }), "spin lock taken twice"); s.unlock(); s.lock(); CHECK(!other([&] { return s.try_lock(); }), "spin lock taken twice"); s.unlock(); CHECK(other([&] { bool r = s.try_lock(); if (r) s.unlock(); return r; }), "released spin lock refused");
	nontrivial();
}
HARNESS_MAIN
