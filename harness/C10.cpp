// C10: the operators on tables of solutions against the SPARQL algebra on multisets of partial maps from variables to strings
#include "Query/TempResult.h"
#include "h.h"
#include <fcntl.h>
using namespace std; using namespace H;
static string ename(unsigned id) { return "<e" + to_string(id) + ">"; }
static string pname(unsigned id) { return "<p" + to_string(id) + ">"; }
// the string index is no part of the property: a fixed table of names
bool StringIndex::randomAccess(unsigned id, string* s, char*&, unsigned&, bool eo, bool) { *s = eo ? ename(id) : pname(id); return true; }
typedef map<string, string> Row; typedef multiset<Row> Bag;
static Varset EL;      // the variables that stand for entities and literals (the others stand for predicates)
static bool isel(const string& v) { return v != "?p"; }
static string text(const Row& r) { string s = "{"; for (auto& x : r) s += x.first + "=" + x.second + " "; return s + "}"; }
static string text(const Bag& b) { string s; int n = 0; for (auto& r : b) { if (n++ > 12) return s + "..."; s += text(r); } return s.empty() ? "no solution" : s; }
struct Quiet { int o; Quiet() { fflush(stdout); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(o, 1); close(o); } };
static string word(Rng& R, const string& v, int nv) { return R.coin() ? (isel(v) ? ename(R.below(nv)) : pname(R.below(nv))) : R.coin() ? "\"" + to_string(R.below(nv)) + "\"" : "<e" + to_string(R.below(nv)); }
static void table(Rng& R, TempResult& t, int nv, int rows) {
	int ni = t.id_varset.getVarsetSize(), ns = t.str_varset.getVarsetSize();
	for (int i = 0; i < rows; i++) {
		t.result.emplace_back(); TempResult::ResultPair& p = t.result.back(); if (ni) { p.id = new unsigned[ni]; p.sz = ni; for (int k = 0; k < ni; k++) p.id[k] = R.below(nv) + (R.below(9) == 0 ? 3000000000u : 0); } for (int k = 0; k < ns; k++) p.str.push_back(word(R, t.str_varset.vars[k], nv));
	}
}
static const char* V[] = {"?a", "?b", "?c", "?p"};
static void tables(Rng& R, TempResultSet& s, int nv) {
	s.initial = false; int n = R.coin(1, 12) ? 0 : R.coin() ? 1 : R.range(2, 3); int strs = R.below(4);
	for (int i = 0; i < n; i++) {
		vector<string> vs(V, V + 4), a, b; for (int k = 3; k > 0; k--) swap(vs[k], vs[R.below(k + 1)]); int m = R.coin(1, 10) ? 0 : R.range(1, 4); for (int k = 0; k < m; k++) (R.below(4) < (unsigned)strs ? b : a).push_back(vs[k]);
		Varset x(a), y(b); bool same = false; for (auto& t : s.results) if (t.id_varset == x && t.str_varset == y) same = true; if (same) continue;
		s.results.emplace_back(); s.results.back().id_varset = x; s.results.back().str_varset = y; table(R, s.results.back(), nv, R.coin(1, 6) ? 0 : R.coin() ? R.range(1, 3) : R.range(1, 14));
	}
}
// what a set of tables stands for; INVALID and the empty string: not bound
static string read(TempResultSet& s, Bag& b, bool unbound) {
	b.clear(); for (size_t i = 0; i < s.results.size(); i++) {
		TempResult& t = s.results[i]; vector<string>&iv = t.id_varset.vars, &sv = t.str_varset.vars; set<string> all(iv.begin(), iv.end()); all.insert(sv.begin(), sv.end()); if (all.size() != iv.size() + sv.size()) return "a variable occurs twice in one table";
		for (size_t j = 0; j < i; j++) if (s.results[j].id_varset == t.id_varset && s.results[j].str_varset == t.str_varset) return "two tables of the same variables";
		for (auto& p : t.result) {
			if (p.str.size() != sv.size()) return "a row with " + to_string(p.str.size()) + " strings for " + to_string(sv.size()) + " variables"; if (iv.size() && (!p.id || p.sz != (int)iv.size())) return "a row with " + to_string(p.sz) + " identifiers for " + to_string(iv.size()) + " variables";
			Row r; for (size_t k = 0; k < iv.size(); k++) if (!unbound || p.id[k] != INVALID) r[iv[k]] = isel(iv[k]) ? ename(p.id[k]) : pname(p.id[k]); for (size_t k = 0; k < sv.size(); k++) if (!unbound || p.str[k].size()) r[sv[k]] = p.str[k]; b.insert(r);
		}
	} return "";
}
static void tell(const char* nm, TempResultSet& s) { note("%s:", nm); for (auto& t : s.results) { note(" [ids"); for (auto& v : t.id_varset.vars) note(" %s", v.c_str()); note("; strings"); for (auto& v : t.str_varset.vars) note(" %s", v.c_str()); note(":"); for (auto& p : t.result) { note(" ("); for (int k = 0; k < p.sz; k++) note("%u ", p.id[k]); for (auto& x : p.str) note("%s ", x.c_str()); note(")"); } note("]"); } note(". "); }
static bool compat(const Row& a, const Row& b, bool* share = nullptr) { bool sh = false; for (auto& x : a) { auto y = b.find(x.first); if (y == b.end()) continue; sh = true; if (y->second != x.second) return false; } if (share) *share = sh; return true; }
static Row both(Row a, const Row& b) { a.insert(b.begin(), b.end()); return a; }
static string diff(const Bag& got, const Bag& want) { if (got == want) return ""; Bag miss, extra; set_difference(want.begin(), want.end(), got.begin(), got.end(), inserter(miss, miss.end())); set_difference(got.begin(), got.end(), want.begin(), want.end(), inserter(extra, extra.end())); return to_string(got.size()) + " solutions for " + to_string(want.size()) + "; missing: " + text(miss) + "; not in the algebra: " + text(extra); }
struct Case { TempResultSet a, b, r; Bag A, B, G; int nv; Case(Rng& R, bool two = true) { if (!EL.getVarsetSize()) EL = Varset(vector<string>{"?a", "?b", "?c"}); nv = R.range(1, 4); tables(R, a, nv); tell("left", a); read(a, A, false); if (two) { tables(R, b, nv); tell("right", b); read(b, B, false); } } ~Case() { for (auto* s : {&a, &b, &r}) { s->release(); } } };
static StringIndex* SI() { return reinterpret_cast<StringIndex*>(&EL); }
#define SAME(what) { string e = read(c.r, c.G, false); CHECK(e.empty(), "%s: %s", what, e.c_str()); e = diff(c.G, want); CHECK(e.empty(), "%s: %s", what, e.c_str()); if (want.size() > 1 && want != c.A) nontrivial(); }
SUB(join, 6000, 200000) {
	Case c(R); Bag want; if (R.below(12) == 0) { c.a.release(); c.a.results.clear(); c.a.initial = true; c.A = {Row()}; note("The left side is the empty pattern. "); }
	for (auto& x : c.A) for (auto& y : c.B) if (compat(x, y)) want.insert(both(x, y)); { Quiet q; c.a.doJoin(c.b, c.r, SI(), EL); } SAME("join")
}
SUB(left_join, 6000, 200000) {
	Case c(R); Bag want; if (R.below(12) == 0) { c.a.release(); c.a.results.clear(); c.a.initial = true; c.A = {Row()}; note("The left side is the empty pattern. "); }
	for (auto& x : c.A) { bool any = false; for (auto& y : c.B) if (compat(x, y)) { any = true; want.insert(both(x, y)); } if (!any) want.insert(x); } { Quiet q; c.a.doOptional(c.b, c.r, SI(), EL); } SAME("left join")
}
SUB(minus, 6000, 200000) {
	Case c(R); Bag want; for (auto& x : c.A) { bool out = false, sh; for (auto& y : c.B) if (compat(x, y, &sh) && sh) out = true; if (!out) want.insert(x); } { Quiet q; c.a.doMinus(c.b, c.r, SI(), EL); } SAME("minus")
}
SUB(union_, 3000, 60000) { Case c(R); Bag want = c.A; want.insert(c.B.begin(), c.B.end()); { Quiet q; c.a.doUnion(c.b, c.r); } SAME("union") }
SUB(projection_and_distinct, 6000, 200000) {
	Case c(R, false); vector<string> p; for (auto v : V) if (R.coin()) p.push_back(v); if (p.empty()) p.push_back("?a"); if (R.coin()) reverse(p.begin(), p.end()); Varset P(p); note("to"); for (auto& v : p) note(" %s", v.c_str()); note(". ");
	Bag want; for (auto& x : c.A) { Row y; for (auto& v : p) if (x.count(v)) y[v] = x.at(v); want.insert(y); } { Quiet q; c.a.doProjection1(P, c.r, SI(), EL); }
	CHECK(c.r.results.size() == 1, "projection: %zu tables", c.r.results.size()); string e = read(c.r, c.G, true); CHECK(e.empty(), "projection: %s", e.c_str()); e = diff(c.G, want); CHECK(e.empty(), "projection: %s", e.c_str());
	TempResultSet d; { Quiet q; c.r.doDistinct1(d); } set<Row> once(want.begin(), want.end()); want = Bag(once.begin(), once.end()); e = read(d, c.G, true); CHECK(e.empty(), "distinct: %s", e.c_str()); e = diff(c.G, want); d.release(); CHECK(e.empty(), "distinct: %s", e.c_str()); if (want.size() > 1) nontrivial();
}
SUB(order_and_ranges, 6000, 200000) {      // sort, and the range of rows equal to a given one
	Case c(R, false); if (c.a.results.empty()) return; TempResult& t = c.a.results[0]; int n = t.result.size(), ni = t.id_varset.getVarsetSize(), all = ni + t.str_varset.getVarsetSize(); if (!n) return; vector<int> pos; for (int i = 0; i < all; i++) if (R.coin(2, 3)) pos.push_back(i); if (R.coin()) reverse(pos.begin(), pos.end()); note("by columns %s. ", show(pos).c_str());
	auto key = [&](const TempResult::ResultPair& p) { vector<pair<unsigned, string>> k; for (int i : pos) k.push_back(i < ni ? make_pair(p.id[i], string()) : make_pair(0u, p.str[i - ni])); return k; };
	Bag before = c.A; vector<TempResult::ResultPair> copy = t.result; t.sort(0, n - 1, pos); string e = read(c.a, c.G, false); CHECK(e.empty(), "sort: %s", e.c_str()); e = diff(c.G, before); CHECK(e.empty(), "sort: %s", e.c_str()); for (int i = 1; i < n; i++) CHECK(!(key(t.result[i]) < key(t.result[i - 1])), "sort: row %d is less than the row before it", i);
	TempResult q; q.id_varset = t.id_varset; q.str_varset = t.str_varset; table(R, q, c.nv, 2); q.result.push_back(t.result[R.below(n)]);
	for (auto& x : q.result) { int l = -1, r = -1; for (int i = 0; i < n; i++) if (key(t.result[i]) == key(x)) { if (l < 0) l = i; r = i; } int gl = t.findLeftBounder(pos, x, ni, pos), gr = t.findRightBounder(pos, x, ni, pos); CHECK(gl == l && gr == r, "the rows equal to a given one are %d..%d, reported %d..%d", l, r, gl, gr); }
	q.release(); for (auto& p : copy) delete[] p.id; if (n > 2 && pos.size()) nontrivial();
}
SUB(row_copies, 3000, 60000) {
	Case c(R, false); if (c.a.results.empty()) return; TempResult& t = c.a.results[0]; TempResult u(t), w; w = t; TempResultSet s(c.a), z; z = c.a; Bag b; string e;
	e = read(s, b, false); CHECK(e.empty() && b == c.A, "a copy of the tables differs"); e = read(z, b, false); CHECK(e.empty() && b == c.A, "an assigned copy of the tables differs");
	for (auto& p : t.result) { for (int k = 0; k < p.sz; k++) p.id[k] ^= 7; for (auto& x : p.str) x += "x"; } e = read(s, b, false); CHECK(e.empty() && b == c.A, "a copy shares values with the original"); e = read(z, b, false); CHECK(e.empty() && b == c.A, "an assigned copy shares values with the original");
	if (t.result.size() > 1) { TempResult::ResultPair p(t.result[0]); p = t.result[1]; CHECK(p.sz == t.result[1].sz && p.str == t.result[1].str && (!p.sz || (p.id != t.result[1].id && equal(p.id, p.id + p.sz, t.result[1].id))), "an assigned row differs"); delete[] p.id; } s.release(); z.release(); u.release(); w.release(); if (c.A.size() > 1) nontrivial();
}
HARNESS_MAIN
