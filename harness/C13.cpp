// C13: a keyed value file against a table of the last values stored, over histories with a small cache, a growing key table, saving and opening again
#include "h.h"
#include "KVstore/IVArray/IVArray.h"
#include "KVstore/ISArray/ISArray.h"
using namespace std; using namespace H;
#define CHECK2(c, ...) do { if (!(c)) { H::fail(__VA_ARGS__); return false; } } while (0)
struct Quiet { streambuf *a; ostringstream o; Quiet() { a = cout.rdbuf(o.rdbuf()); } ~Quiet() { cout.rdbuf(a); } };
static string bytes(unsigned seed, size_t n) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)((seed * 2654435761u + i * 40503u) >> 7); return s; }
static void pin(IVArray& a, unsigned k) { a.PinCache(k); }
static void pin(ISArray& a, unsigned k) { char* s; unsigned n; if (a.search(k, s, n)) delete[] s; }
template <class A, class LEN> struct Run {
	string dir; A* a; map<unsigned, string> want; unsigned long cache; string why;
	void open(const char* how) { string md = how; a = new A(dir, "values", md, cache, 0); }
	char* own(const string& s) { char* p = new char[s.size()]; memcpy(p, s.data(), s.size()); return p; }
	bool look(unsigned k) {
		char* s = nullptr; LEN n = 0; bool r = a->search(k, s, n); auto it = want.find(k); char t[300];
		if (r != (it != want.end())) { snprintf(t, 300, "key %u is %s", k, r ? "found although it is not present" : "missed although it is present"); why = t; if (r) delete[] s; return false; }
		if (!r) return true;
		bool ok = n == it->second.size() && !memcmp(s, it->second.data(), n); if (!ok) { snprintf(t, 300, "key %u: %lu bytes were read, %zu were stored%s", k, (unsigned long)n, it->second.size(), n == it->second.size() ? " (other bytes)" : ""); why = t; }
		delete[] s; return ok;
	}
	bool all(const vector<unsigned>& ks) { for (unsigned k : ks) if (!look(k)) return false; return true; }
};
template <class A, class LEN> static bool history(Rng& R, long K, bool iv) {
	Quiet q; Run<A, LEN> r; r.dir = scratch_dir(); r.cache = R.pick(vector<unsigned long>{1, 40, 300, 1000, 5000, 60000}); r.open("build");
	struct Gone { Run<A, LEN>& r; ~Gone() { delete r.a; for (auto x : {"_ValueFile", "_FreeBlockList", "_IVfile", "_ISfile"}) unlink((r.dir + "/values" + x).c_str()); } } gone{r};
	bool far = R.coin(1, 3), pins = R.coin(1, 2); vector<unsigned> ks; for (int i = R.range(1, 9); i; i--) { unsigned k = R.below(12); if (far && R.coin(1, 3)) k = 1024 * R.range(1, 9) + R.below(3) - 1; ks.push_back(k); } ks.push_back(R.pick(vector<unsigned>{0, 1023, 1024, 1025, 5000}));
	unsigned long most = R.pick(vector<unsigned long>{30, 200, 900, 7000}); int ops = R.range(3, 60), full = R.range(1, 12); note("cache %lu ", r.cache);
	for (int o = 0; o < ops; o++) {
		int w = R.range(0, 19); unsigned k = R.pick(ks); bool had = r.want.count(k), ok = true, res; size_t n = 1 + R.below(R.coin(1, 8) ? r.cache + 9 : most); if (iv && far && R.below(60) == 0) n = 1000001 + R.below(5); string v = bytes(R.next(), n);
		if (w < 7) { char* p = r.own(v); note("+%u(%zu) ", k, n); res = r.a->insert(k, p, n); ok = res == !had; if (!ok) r.why = string("inserting is ") + (res ? "accepted" : "refused"); if (res) r.want[k] = v; else delete[] p; }
		else if (w < 11) { char* p = r.own(v); note("=%u(%zu) ", k, n); res = r.a->modify(k, p, n); ok = res == had; if (!ok) r.why = string("modifying is ") + (res ? "accepted" : "refused"); if (res) r.want[k] = v; else delete[] p; }
		else if (w < 14) { note("-%u ", k); res = r.a->remove(k); ok = res == had; if (!ok) r.why = string("removing is ") + (res ? "accepted" : "refused"); r.want.erase(k); }
		else if (w < 17) { note("?%u ", k); ok = r.look(k); }
		else if (w < 18) { if (pins) { note("pin%u ", k); pin(*r.a, k); } }
		else { note(w < 19 ? "save " : "reopen "); ok = r.a->save(); if (!ok) r.why = "saving fails"; if (w == 19) { delete r.a; r.open("open"); } }
		CHECK2(ok, "operation %d: %s", o, r.why.c_str());
		if (o % full == 0 || o == ops - 1) CHECK2(r.all(ks), "after operation %d: %s", o, r.why.c_str());
	}
	r.a->save(); delete r.a; r.open("open"); CHECK2(r.all(ks), "after the last reopening: %s", r.why.c_str());
	return true;
}
SUB(identifier_values, 600, 12000) { if (history<IVArray, unsigned long>(R, K, true)) nontrivial(); }
SUB(string_values, 600, 12000) { if (history<ISArray, unsigned>(R, K, false)) nontrivial(); }
HARNESS_MAIN
