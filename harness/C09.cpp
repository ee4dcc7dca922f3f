// C09: variable sets against sets of names kept in the order of first occurrence
#include "h.h"
#include "Query/Varset.h"
using namespace std; using namespace H;
typedef vector<string> N;
static bool in(const N& a, const string& x) { return find(a.begin(), a.end(), x) != a.end(); }
static N dist(const N& a) { N r; for (auto& x : a) if (!in(r, x)) r.push_back(x); return r; }
static N some(Rng& R, int most) {
	static const N odd = {"", "?", "?a", "?aa", "?A", "?a ", "?b", string("?a\0b", 4), string("?a\0c", 4), "?averyveryverylongvariablename1", "?averyveryverylongvariablename2"}; int n = R.range(0, most); N r;
	for (int i = 0; i < n; i++) r.push_back(R.coin(1, 2) ? R.pick(odd) : "?x" + to_string(R.below(most + 1))); return r;
}
SUB(algebra, 20000, 500000) {
	int most = R.pick(vector<int>{0, 2, 5, 9, 25}); N x = some(R, most), y = R.coin(1, 6) ? x : some(R, most); if (R.coin(1, 5)) { y = dist(x); for (size_t i = y.size(); i > 1; i--) swap(y[i - 1], y[R.below(i)]); if (y.size() && R.coin(1, 3)) y.pop_back(); else if (R.coin(1, 3)) y.push_back("?extra"); }
	for (auto& s : x) note("%s,", s.c_str()); note(" | "); for (auto& s : y) note("%s,", s.c_str());
	N a = dist(x), b = dist(y); Varset A(x), B(y); bool self = R.coin(1, 12); if (self) b = a; const Varset& Q = self ? A : B;
	CHECK(A.vars == a && Q.vars == b, "a list of names does not give its distinct names in order");
	N u = a, i, m, want; for (auto& s : b) if (!in(u, s)) u.push_back(s); for (auto& s : a) { if (in(b, s)) i.push_back(s); else m.push_back(s); }
	CHECK((A + Q).vars == u, "union"); CHECK((A * Q).vars == i, "intersection"); CHECK((A - Q).vars == m, "difference"); CHECK(A.vars == a && Q.vars == b, "an operand changed");
	CHECK((A == Q) == (a.size() == b.size() && m.empty()), "equality"); CHECK(A.belongTo(Q) == m.empty(), "containment"); CHECK(A.hasCommonVar(Q) == !i.empty(), "having a common name"); CHECK(A.empty() == a.empty() && A.getVarsetSize() == (int)a.size(), "size");
	vector<int> p = A.mapTo(Q); CHECK(p.size() == a.size(), "mapping: size"); for (size_t k = 0; k < a.size(); k++) { int w = in(b, a[k]) ? find(b.begin(), b.end(), a[k]) - b.begin() : -1; CHECK(p[k] == w, "mapping: %d instead of %d for %s", p[k], w, a[k].c_str()); }
	for (auto& s : x) { CHECK(A.findVar(s), "a name is not found"); CHECK(B.findVar(s) == in(y, s), "finding %s", s.c_str()); } if (x.size()) { Varset o(x[0]); CHECK(o.vars == N{x[0]}, "a set of one name"); }
	Varset C(A); C += self ? C : B; CHECK(C.vars == u && A.vars == a, "extending a set"); nontrivial();
}
HARNESS_MAIN
