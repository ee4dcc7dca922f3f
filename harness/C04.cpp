#include "Util/Version.h"
#include "KVstore/IVArray/IVArray.h"
#include "h.h"
using namespace std; using namespace H;
typedef pair<unsigned, unsigned> P; typedef set<P> S;
static string sh(const S& s) { ostringstream o; o << "{"; for (auto& p : s) o << p.first << ":" << p.second << " "; o << "}"; return o.str(); }
static P rp(Rng& R) { static const unsigned V[] = {0, 1, 2, 3, 7, 2000000000u, 4294967294u, 4294967295u}; return {V[R.below(R.coin(3, 4) ? 4 : 8)], V[R.below(4)]}; }
static S some(Rng& R, int most) { S s; int n = R.range(0, most); for (int i = 0; i < n; i++) s.insert(rp(R)); return s; }
struct Quiet { streambuf *a, *b; ostringstream o; Quiet() { a = cout.rdbuf(o.rdbuf()); b = cerr.rdbuf(o.rdbuf()); } ~Quiet() { cout.rdbuf(a); cerr.rdbuf(b); } };
// what a list is to a reader: the additions and removals to apply to the base list
struct View { S a, d; void add(const P& p) { d.erase(p); a.insert(p); } void del(const P& p) { a.erase(p); d.insert(p); } void put(const View& v) { for (auto& p : v.a) add(p); for (auto& p : v.d) del(p); }
	// the effect on a base list
	bool in(const P& p, bool base) const { return a.count(p) ? true : d.count(p) ? false : base; }
	bool same(const View& o, const S& uni) const { for (auto& p : uni) for (int b = 0; b < 2; b++) if (in(p, b) != o.in(p, b)) return false; return true; } };
static const S& universe() { static S u; if (u.empty()) for (unsigned x : {0u, 1u, 2u, 3u, 7u, 2000000000u, 4294967294u, 4294967295u}) for (unsigned y : {0u, 1u, 2u, 3u}) u.insert(P(x, y)); return u; }
static bool eff(const View& got, const View& want) { for (auto& p : got.a) if (got.d.count(p)) return false; for (auto& p : got.a) if (!universe().count(p)) return false; for (auto& p : got.d) if (!universe().count(p)) return false; return got.same(want, universe()); }
SUB(version, 20000, 400000) {
	Quiet q; Version v; View m; int n = R.range(0, R.coin(1, 20) ? 400 : 30); 
	// a transaction inserts what is absent and removes what is present, and may change its mind
	for (int i = 0; i < n; i++) {
		P p = R.coin(1, 2) || m.a.empty() ? rp(R) : *next(m.a.begin(), R.below(m.a.size()));
		int k = R.below(4);
		if (k == 0) { note("+%u:%u ", p.first, p.second); v.add(p); m.add(p); }
		else if (k == 1) { note("-%u:%u ", p.first, p.second); v.remove(p); m.del(p); }
		else { VDataArray a; S s = some(R, 5); a.assign(s.begin(), s.end()); if (R.coin()) reverse(a.begin(), a.end()); note("%s%s ", k == 2 ? "+" : "-", sh(s).c_str()); if (k == 2) { v.batch_add(a); for (auto& x : s) m.add(x); } else { v.batch_remove(a); for (auto& x : s) m.del(x); } }
		if (i % 5 == 0 || i + 1 == n) {
			S a, d; v.get_add_set(a); v.get_del_set(d);
			CHECK(a == m.a, "added pairs %s, want %s", sh(a).c_str(), sh(m.a).c_str()); CHECK(d == m.d, "removed pairs %s, want %s", sh(d).c_str(), sh(m.d).c_str());
			View e, w; e.a = some(R, 6); for (auto& x : some(R, 6)) if (!e.a.count(x)) e.d.insert(x); w = e; v.get_version(e.a, e.d); w.put(m);
			CHECK(eff(e, w), "merged over earlier versions: added %s removed %s, want %s %s", sh(e.a).c_str(), sh(e.d).c_str(), sh(w.a).c_str(), sh(w.d).c_str());
		}
	}
	nontrivial();
}
static Transaction* mk(ull tid, IsolationLevelType iso) { return new Transaction("db", 0, tid, iso); }
struct Txn { ull tid; shared_ptr<Transaction> t; bool wrote = false, read = false, latched = false; View mine; };
struct Ver { ull cid; View v; };
// one key under one entry: every operation of every transaction against a reference chain
struct Model {
	vector<Ver> com; Txn* owner = nullptr; set<Txn*> sharers; IsolationLevelType iso;
	View snap(Txn* t) { View v; for (auto& c : com) if (iso == IsolationLevelType::READ_COMMITTED || c.cid <= t->tid) v.put(c.v); if (owner == t) v.put(t->mine); return v; }
	ull head() { return com.empty() ? 0 : com.back().cid; }
	bool admits(Txn* t) { if (owner) return owner == t; if (iso == IsolationLevelType::READ_COMMITTED) return true; if (t->tid < head()) return false; if (iso == IsolationLevelType::SNAPSHOT) return true; if (sharers.count(t)) return sharers.size() == 1; return sharers.empty(); }
};
template <class Ent> struct Ops { };
SUB(chain, 20000, 500000) {
	Quiet q; static const IsolationLevelType I[] = {IsolationLevelType::READ_COMMITTED, IsolationLevelType::SNAPSHOT, IsolationLevelType::SERIALIZABLE};
	Model m; m.iso = I[R.below(3)]; bool SR = m.iso == IsolationLevelType::SERIALIZABLE; bool viaArray = R.coin(1, 40);
	unique_ptr<IVArray> arr; unique_ptr<IVEntry> ent; unsigned key = 0; string dir;
	if (viaArray) { dir = scratch_dir(); arr.reset(new IVArray(dir, "c04", "build", 1 << 20, 1)); key = SR || R.coin(1, 3) ? R.below(1024) : R.coin(1, 3) ? 1024 : 1025 + R.below(6000); } else ent.reset(new IVEntry);
	note("isolation=%d %s key=%u ", (int)m.iso, viaArray ? "IVArray" : "IVEntry", key);
	ull counter = 1 + (R.coin(1, 10) ? 0xffffffffULL : 0); vector<unique_ptr<Txn>> all; vector<Txn*> act;
	int n = R.range(3, 40);
	for (int i = 0; i < n; i++) {
		if (act.empty() || (act.size() < 4 && R.coin(1, 4))) { unique_ptr<Txn> t(new Txn); t->tid = counter++; t->t.reset(mk(t->tid, m.iso)); note("begin%llu ", t->tid); act.push_back(t.get()); all.push_back(move(t)); continue; }
		Txn* t = R.pick(act);
		switch (R.below(5)) {
		case 0: case 1: {	// write
			if (m.owner != t) {
				bool want = m.admits(t); note("X%llu ", t->tid); bool up = SR && m.sharers.count(t);
				int got = viaArray ? arr->TryExclusiveLatch(key, t->t, up) : ent->GetExclusiveLatch(t->t, up);
				CHECK((got == 1) == want && (got == 0 || got == 1), "write admission of %llu answered %d, want %d", t->tid, got, want);
				if (!want) break;
				m.owner = t; t->wrote = true; m.sharers.erase(t); t->read = up; t->mine = View();
			}
			S a = some(R, 3), d; for (auto& x : some(R, 3)) if (!a.count(x)) d.insert(x);
			note("W%llu+%s-%s ", t->tid, sh(a).c_str(), sh(d).c_str());
			if (viaArray) { if (!a.empty()) { S c = a; CHECK(arr->insert(key, c, t->t), "insert by the owner failed"); CHECK(c == a, "insert changed its argument"); } if (!d.empty()) { S c = d; CHECK(arr->remove(key, c, t->t), "remove by the owner failed"); CHECK(c == d, "remove changed its argument"); } }
			else { S c = a, e = d; CHECK(ent->WriteVersion(c, e, t->t) == 1, "write by the owner failed"); CHECK(c == a && e == d, "WriteVersion changed its arguments"); }
			for (auto& x : a) t->mine.add(x); for (auto& x : d) t->mine.del(x);
			break; }
		case 2: {	// read
			bool first = SR && !m.sharers.count(t) && m.owner != t; View e; bool latched = false; note("R%llu%s ", t->tid, first ? "!" : "");
			bool want = true, wl = false;
			if (SR) { if (m.owner && m.owner != t && t->tid > m.owner->tid) want = false; else if (!(m.owner) && m.head() <= t->tid && first) wl = true; }
			bool got; if (viaArray) { char* s = (char*)1; unsigned long l = 1; got = arr->search(key, s, l, e.a, e.d, t->t, latched, first); if (want) got = got || !s; CHECK(!got || (s == nullptr && l == 0), "a base list nobody wrote"); } else got = ent->ReadVersion(e.a, e.d, t->t, latched, first);
			CHECK(got == want, "read by %llu answered %d, want %d", t->tid, got, want);
			CHECK(latched == wl, "shared latch flag %d, want %d", latched, wl);
			if (!got) break;
			if (wl) { m.sharers.insert(t); }
			View w = m.snap(t); CHECK(eff(e, w), "transaction %llu reads added %s removed %s, want %s %s", t->tid, sh(e.a).c_str(), sh(e.d).c_str(), sh(w.a).c_str(), sh(w.d).c_str());
			break; }
		default: {	// end
			bool commit = R.coin(2, 3); note("%s%llu ", commit ? "commit" : "abort", t->tid);
			if (m.owner == t) {
				if (commit) { ull cid = counter; t->t->SetCommitID(cid); bool ok = viaArray ? arr->ReleaseLatch(key, t->t, IVEntry::LatchType::EXCLUSIVE) : ent->UnLatch(t->t, IVEntry::LatchType::EXCLUSIVE); CHECK(ok, "commit by the owner refused"); m.com.push_back({cid, t->mine}); if (R.coin()) counter++; }
				else { bool hr = SR && t->read; bool ok = viaArray ? arr->Rollback(key, t->t, hr) : ent->InvalidExlusiveLatch(t->t, hr); CHECK(ok, "rollback by the owner refused"); if (hr) m.sharers.insert(t); }
				m.owner = nullptr;
			}
			if (SR && m.sharers.count(t)) { bool ok = viaArray ? arr->ReleaseLatch(key, t->t, IVEntry::LatchType::SHARED) : ent->UnLatch(t->t, IVEntry::LatchType::SHARED); CHECK(ok, "release of a shared latch refused"); m.sharers.erase(t); }
			act.erase(find(act.begin(), act.end(), t)); }
		}
		// every active transaction's view, through the reading functions themselves
		if (!viaArray) for (Txn* u : act) {
			View e, w = m.snap(u);
			if (m.iso == IsolationLevelType::READ_COMMITTED) ent->getLatestVersion(u->tid, e.a, e.d); else ent->getProperVersion(u->tid, e.a, e.d);
			CHECK(eff(e, w), "then transaction %llu would read added %s removed %s, want %s %s", u->tid, sh(e.a).c_str(), sh(e.d).c_str(), sh(w.a).c_str(), sh(w.d).c_str());
		}
	}
	if (!m.owner && act.empty() && !viaArray) { View e; ent->CleanAllVersion(); ent->getLatestVersion(counter, e.a, e.d); CHECK(e.a.empty() && e.d.empty() && !ent->isVersioned(), "versions survive a clean"); Txn t; t.tid = counter; t.t.reset(mk(counter, m.iso)); CHECK(ent->GetExclusiveLatch(t.t, false) == 1, "no write after a clean"); }
	if (viaArray) { arr.reset(); }
	nontrivial();
}
// many keys of one array, with base lists and growth of the array while transactions are open
SUB(array, 400, 6000) {
	Quiet q; string dir = scratch_dir(); IVArray arr(dir, "c04a", "build", R.coin() ? 1 << 20 : 400, 1); IsolationLevelType iso = R.coin() ? IsolationLevelType::SNAPSHOT : IsolationLevelType::READ_COMMITTED;
	map<unsigned, string> base; map<unsigned, Model> ks; ull counter = 5; vector<unique_ptr<Txn>> act; map<pair<Txn*, unsigned>, View> priv;
	vector<unsigned> keys; for (int i = 0; i < 12; i++) keys.push_back(i < 6 ? R.below(1024) : R.pick(vector<unsigned>{1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 8191, 8192, 9000}));
	note("isolation=%d keys=%s ", (int)iso, show(keys).c_str());
	for (unsigned k : keys) if (k < 1024 && !base.count(k) && R.coin()) { string s; for (int j = R.range(1, 60); j > 0; j--) s += (char)R.below(256); char* c = new char[s.size()]; memcpy(c, s.data(), s.size()); CHECK(arr.insert(k, c, s.size()), "insert of key %u failed", k); base[k] = s; }
	int n = R.range(5, 60);
	for (int i = 0; i < n; i++) {
		if (act.empty() || (act.size() < 4 && R.coin(1, 4))) { unique_ptr<Txn> t(new Txn); t->tid = counter++; t->t.reset(mk(t->tid, iso)); act.push_back(move(t)); continue; }
		size_t ti = R.below(act.size()); Txn* t = act[ti].get(); unsigned k = R.pick(keys); Model& m = ks[k]; m.iso = iso;
		switch (R.below(5)) {
		case 0: case 1: {
			if (m.owner != t) { bool want = m.admits(t); note("X%llu@%u ", t->tid, k); int got = arr.TryExclusiveLatch(k, t->t); CHECK((got == 1) == want, "write admission of %llu at key %u answered %d, want %d", t->tid, k, got, want); if (!want) break; m.owner = t; priv[{t, k}] = View(); }
			S a = some(R, 3), d; for (auto& x : some(R, 3)) if (!a.count(x)) d.insert(x);
			note("W%llu@%u ", t->tid, k); View& p = priv[{t, k}];
			if (!a.empty()) { CHECK(arr.insert(k, a, t->t), "insert failed"); for (auto& x : a) p.add(x); }
			if (!d.empty()) { CHECK(arr.remove(k, d, t->t), "remove failed"); for (auto& x : d) p.del(x); }
			break; }
		case 2: case 3: {
			View e, w; bool latched = false; char* s = nullptr; unsigned long l = 0; note("R%llu@%u ", t->tid, k);
			arr.search(k, s, l, e.a, e.d, t->t, latched, false);
			for (auto& c : m.com) if (iso == IsolationLevelType::READ_COMMITTED || c.cid <= t->tid) w.put(c.v); if (m.owner == t) w.put(priv[{t, k}]);
			CHECK(eff(e, w), "transaction %llu reads at key %u added %s removed %s, want %s %s", t->tid, k, sh(e.a).c_str(), sh(e.d).c_str(), sh(w.a).c_str(), sh(w.d).c_str());
			string got = s ? string(s, l) : string(); string want = base.count(k) ? base[k] : string(); CHECK(got == want, "base list of key %u has %zu bytes, want %zu", k, got.size(), want.size()); delete[] s;
			break; }
		default: {
			bool commit = R.coin(2, 3); note("%s%llu ", commit ? "commit" : "abort", t->tid); ull cid = counter; t->t->SetCommitID(cid);
			for (auto& km : ks) if (km.second.owner == t) { unsigned kk = km.first; Model& mm = km.second;
				if (commit) { CHECK(arr.ReleaseLatch(kk, t->t, IVEntry::LatchType::EXCLUSIVE), "commit refused"); mm.com.push_back({cid, priv[{t, kk}]}); } else CHECK(arr.Rollback(kk, t->t, false), "rollback refused"); mm.owner = nullptr; }
			act.erase(act.begin() + ti); }
		}
	}
	nontrivial();
}
HARNESS_MAIN
