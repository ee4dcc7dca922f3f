#include "Query/TempResult.h"
#include "Util/EvalMultitypeValue.h"
#include "h.h"
#include <cmath>
using namespace std; using namespace H;
typedef EvalMultitypeValue V; typedef long double ld;
enum { IRI = 1, LIT, STR, BOOL, INT, DEC, FLT, LONG, DBL, DATE };
static const char* XS = "http://www.w3.org/2001/XMLSchema#";
// a literal with what it means, kept apart from the code under test
struct G { int t; string term; ld num; long long li; string str; vector<int> date; int b; };
static string typed(const string& s, const char* t) { return "\"" + s + "\"^^<" + XS + t + ">"; }
static G gen(Rng& R, int t) {
	G g; g.t = t; g.num = 0; g.li = 0; g.b = 2; char buf[64];
	static const vector<long long> IV = {0, 1, -1, 2, 3, 7, -7, 10, 100, 16777216, 16777217, 2147483647, -2147483647LL - 1, 2147483646}, LV = {0, 1, -1, 2, 7, -7, 2147483648LL, -2147483649LL, 4294967296LL, 9007199254740993LL, 9223372036854775807LL, -9223372036854775807LL - 1, 5000000000LL};
	static const vector<double> DV = {0, 1, -1, 2, 0.5, 1.5, -0.25, 3, 7, 1e10, 16777216, 2147483647.0, 2147483648.0, 0.1, 1e-3};
	static const vector<string> SV = {"", "a", "b", "ab", "B", "a b", "z\xc3\xa9", "aa"}; static const vector<string> TAG = {"", "", "@en", "@fr"};
	switch (t) {
	case INT: g.li = R.pick(IV); g.num = g.li; g.term = typed(to_string(g.li), "integer"); break;
	case LONG: g.li = R.coin() ? R.pick(LV) : R.pick(IV); g.num = g.li; g.term = typed(to_string(g.li), "long"); break;
	case DEC: case FLT: { float f = (float)R.pick(DV); snprintf(buf, sizeof buf, "%.9g", f); g.num = f; g.term = typed(buf, t == DEC ? "decimal" : "float"); break; }
	case DBL: { double d = R.coin() ? R.pick(DV) : (double)R.pick(LV); snprintf(buf, sizeof buf, "%.17g", d); g.num = d; g.term = typed(buf, "double"); break; }
	case BOOL: g.b = R.range(0, 2); g.term = typed(g.b == 0 ? "true" : g.b == 1 ? "false" : "neither", "boolean"); break;
	case LIT: g.str = "\"" + R.pick(SV) + "\"" + R.pick(TAG); g.term = g.str; break;
	case STR: g.str = "\"" + R.pick(SV) + "\""; g.term = g.str + "^^<" + XS + "string>"; break;
	case IRI: g.str = "<http://x/" + R.pick(SV) + ">"; g.term = g.str; break;
	case DATE: { g.date = {R.range(1999, 2001), R.range(1, 12), R.range(1, 28), 0, 0, 0}; if (R.coin(2, 3)) { g.date[3] = R.range(0, 23); g.date[4] = R.range(0, 59); g.date[5] = R.range(0, 59); snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02dZ", g.date[0], g.date[1], g.date[2], g.date[3], g.date[4], g.date[5]); g.term = typed(buf, "dateTime"); }
		else { snprintf(buf, sizeof buf, "%04d-%02d-%02d", g.date[0], g.date[1], g.date[2]); g.term = typed(buf, "date"); } break; }
	default: if (R.coin()) { static const vector<string> BAD = {"abc", "", "99999999999", "-2147483649", "x1"}; static const vector<string> HUGE_ = {"1e999", "", "none"}; bool w = R.coin(); g.term = typed(w ? R.pick(BAD) : R.pick(HUGE_), w ? "integer" : R.coin() ? "double" : "float"); }   // not a number of its type: only a term
		else g.term = "\"x" + to_string(R.range(0, 2)) + "\"^^<http://example.org/other>"; }
	return g;
}
static bool isnum(int t) { return t >= INT && t <= DBL; }
static V make(const G& g) { V v; v.term_value = g.term; v.deduceTypeValue(); return v; }
static int common(int a, int b) { if (a == b) return a; int m = max(a, b); return m == LONG && min(a, b) != INT ? DBL : m; }
static ld in(int t, ld x) { return t == DEC || t == FLT ? (ld)(float)x : t == DBL ? (ld)(double)x : x; }
static const char* OPS[] = {"==", "!=", "<", "<=", ">", ">="};
template <class T> static bool rel(int o, const T& a, const T& b) { return o == 0 ? a == b : o == 1 ? !(a == b) : o == 2 ? a < b : o == 3 ? !(b < a) : o == 4 ? b < a : !(a < b); }
static int tf(bool b) { return b ? 1 : 0; }
// what the comparison answers: 0 false, 1 true, 2 error
static int want(int o, const G& a, const G& b) {
	bool eq = o < 2;
	if (a.t == BOOL && b.t == BOOL) return a.b == 2 || b.b == 2 ? 2 : tf(rel(o, a.b == 0 ? 1 : 0, b.b == 0 ? 1 : 0));
	if (a.t == BOOL || b.t == BOOL) { if (!eq || (a.t == BOOL ? a.b : b.b) == 2) return 2; return o == 0 ? 0 : 1; }
	if (isnum(a.t) && isnum(b.t)) { int t = common(a.t, b.t); return tf(rel(o, in(t, a.num), in(t, b.num))); }
	if (a.t == b.t && (a.t == LIT || a.t == STR)) return tf(rel(o, a.str, b.str));
	if (a.t == DATE && b.t == DATE) return tf(rel(o, a.date, b.date));
	if (eq) return tf(rel(o, a.term, b.term));
	if (a.t == IRI && b.t == IRI) return tf(rel(o, a.str, b.str));
	return 2;
}
static V cmp(int o, V& a, V& b) { return o == 0 ? a == b : o == 1 ? a != b : o == 2 ? a < b : o == 3 ? a <= b : o == 4 ? a > b : a >= b; }
struct Snap { V v; explicit Snap(const V& x) : v(x) {} bool same(const V& x) const { return v.datatype == x.datatype && v.term_value == x.term_value && v.str_value == x.str_value && v.bool_value.value == x.bool_value.value && (v.datatype != V::xsd_integer || v.int_value == x.int_value) && ((v.datatype != V::xsd_decimal && v.datatype != V::xsd_float) || v.flt_value == x.flt_value) && (v.datatype != V::xsd_double || v.dbl_value == x.dbl_value) && (v.datatype != V::xsd_long || v.long_value == x.long_value) && v.dt_value.date == x.dt_value.date; } };
static ld value(const V& v) { return v.datatype == V::xsd_integer ? (ld)v.int_value : v.datatype == V::xsd_long ? (ld)v.long_value : v.datatype == V::xsd_double ? (ld)v.dbl_value : (ld)v.flt_value; }
SUB(compare, 60000, 1500000) {
	cout.setstate(ios::failbit);
	G a = gen(R, R.range(0, 10)), b = gen(R, R.coin() ? a.t : R.range(0, 10)); note("%s ? %s", a.term.c_str(), b.term.c_str()); V x = make(a), y = make(b); Snap sx(x), sy(y);
	for (int o = 0; o < 6; o++) { V r = cmp(o, x, y); CHECK(r.datatype == V::xsd_boolean, "%s does not answer with a truth value", OPS[o]); CHECK(r.bool_value.getValue() == want(o, a, b), "%s answers %d, want %d (0 false, 1 true, 2 error)", OPS[o], r.bool_value.getValue(), want(o, a, b));
		CHECK(sx.same(x) && sy.same(y), "%s changes its operands", OPS[o]);
		if (r.bool_value.getValue() != 2) CHECK(r.term_value == typed(r.bool_value.getValue() ? "true" : "false", "boolean"), "%s: the written form is %s", OPS[o], r.term_value.c_str());
		V s = cmp(o, x, x); CHECK(s.bool_value.getValue() == want(o, a, a), "%s of a value and itself answers %d", OPS[o], s.bool_value.getValue()); CHECK(sx.same(x), "%s of a value and itself changes it", OPS[o]); }
	nontrivial();
}
SUB(calculate, 60000, 1500000) {
	cout.setstate(ios::failbit);
	G a = gen(R, R.coin(4, 5) ? R.range(INT, DBL) : R.range(0, 10)), b = gen(R, R.coin(4, 5) ? R.range(INT, DBL) : R.range(0, 10)); note("%s ? %s", a.term.c_str(), b.term.c_str()); V x = make(a), y = make(b); Snap sx(x), sy(y);
	for (int o = 0; o < 4; o++) {
		int t = isnum(a.t) && isnum(b.t) ? common(a.t, b.t) : 0; ld p = in(t, a.num), q = in(t, b.num), w = 0, lo = t == INT ? -2147483648.0L : -9223372036854775808.0L, hi = t == INT ? 2147483647.0L : 9223372036854775807.0L; bool err = !t, whole = t == INT || t == LONG;
		if (whole) { __int128 P = a.li, Q = b.li, W = 0; if (o == 3 && (Q == 0 || (Q == -1 && (ld)P == lo))) err = true; else { W = o == 0 ? P + Q : o == 1 ? P - Q : o == 2 ? P * Q : P / Q; w = (ld)W; if (w < lo || w > hi) continue; } }
		else if (t == DBL) { double P = p, Q = q; w = o == 0 ? P + Q : o == 1 ? P - Q : o == 2 ? P * Q : P / Q; }
		else { float P = p, Q = q; w = (float)(o == 0 ? P + Q : o == 1 ? P - Q : o == 2 ? P * Q : P / Q); }
		V r = o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; const char* on = &"+\0-\0*\0/"[2 * o];
		CHECK(sx.same(x) && sy.same(y), "%s changes its operands", on);
		if (o == 1 && a.t == DATE && b.t == DATE) {      // a time span: days, hours, minutes and seconds
			auto sec = [](const G& g) { int y = g.date[0], m = g.date[1]; y -= m <= 2; long e = (y >= 0 ? y : y - 399) / 400, yo = y - e * 400, dy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + g.date[2] - 1; return ((e * 146097 + yo * 365 + yo / 4 - yo / 100 + dy) * 24 + g.date[3]) * 3600L + g.date[4] * 60 + g.date[5]; };
			long d = sec(a) - sec(b); CHECK(r.datatype == V::xsd_datetime && r.dt_value.date == (vector<float>{0, 0, (float)(d / 86400), (float)(d / 3600 % 24), (float)(d / 60 % 60), (float)(d % 60)}), "the span is %s, want %ld seconds", show(r.dt_value.date).c_str(), d); continue; }
		if (err) { CHECK(r.datatype == V::xsd_boolean && r.bool_value.getValue() == 2, "%s answers with type %d, want an error", on, (int)r.datatype); continue; }
		CHECK(r.datatype == t, "%s: type %d, want %d", on, (int)r.datatype, t); ld g = value(r); CHECK(g == w || (isnan((double)g) && isnan((double)w)), "%s: %.20Lg, want %.20Lg", on, g, w);
		if (whole) { string s = typed(to_string((long long)w), t == INT ? "integer" : "long"); CHECK(r.term_value == s && r.getRep() == s, "%s: written as %s and %s, want %s", on, r.term_value.c_str(), r.getRep().c_str(), s.c_str()); }
	}
	if (isnum(a.t)) { V r = -x; bool edge = (a.t == INT && a.num == -2147483648.0L) || (a.t == LONG && a.num == -9223372036854775808.0L); CHECK(r.datatype == a.t && (edge || value(r) == -a.num), "negation gives %.20Lg", value(r)); CHECK(sx.same(x), "negation changes its operand"); }
	else { V r = -x; CHECK(r.datatype == V::xsd_boolean && r.bool_value.getValue() == 2, "negation of no number is no error"); }
	nontrivial();
}
static int t3(int o, int a, int b) { return o == 0 ? (a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2) : (a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2); }
// a filter expression and its value: 0 false, 1 true, 2 error
static CompTreeNode leaf(const string& s) { CompTreeNode n; n.val = s; return n; }
static pair<CompTreeNode, int> expr(Rng& R, int depth) {
	CompTreeNode n; int k = depth == 0 ? R.range(0, 1) : R.range(0, 6);
	if (k == 0) { G g = gen(R, R.coin(3, 4) ? BOOL : R.range(0, 10)); return {leaf(g.term), g.t == BOOL ? (g.b == 0 ? 1 : g.b == 1 ? 0 : 2) : 2}; }
	if (k == 1) { G a = gen(R, R.range(0, 10)), b = gen(R, R.coin() ? a.t : R.range(0, 10)); int o = R.range(0, 5); n.oprt = o == 0 ? "=" : OPS[o]; n.children = {leaf(a.term), leaf(b.term)}; return {n, want(o, a, b)}; }
	if (k == 2) { G a = gen(R, R.range(0, 10)); int m = R.range(1, 4), v = 0; bool neg = R.coin(); n.oprt = neg ? "NOT IN" : "IN"; n.children = {leaf(a.term)}; for (int i = 0; i < m; i++) { G b = gen(R, R.coin(3, 4) ? a.t : R.range(0, 10)); n.children.push_back(leaf(b.term)); v = t3(1, v, want(0, a, b)); } return {n, neg ? (v == 2 ? 2 : 1 - v) : v}; }
	if (k == 3) { auto e = expr(R, depth - 1); n.oprt = "!"; n.children = {e.first}; return {n, e.second == 2 ? 2 : 1 - e.second}; }
	auto l = expr(R, depth - 1), r = expr(R, depth - 1); int o = k & 1; n.oprt = o == 0 ? "&&" : "||"; n.children = {l.first, r.first}; return {n, t3(o, l.second, r.second)};
}
static string str(const CompTreeNode& n) { if (n.children.empty()) return n.val; string s = n.oprt + "("; for (size_t i = 0; i < n.children.size(); i++) s += (i ? ", " : "") + str(n.children[i]); return s + ")"; }
SUB(filter, 30000, 600000) {
	cout.setstate(ios::failbit);
	auto e = expr(R, 3); note("%s", str(e.first).c_str()); static TempResult* T = new TempResult; TempResult::ResultPair row; row.id = nullptr; Varset none; V r = T->doComp(e.first, row, 0, nullptr, none);
	int g = r.datatype == V::xsd_boolean ? r.bool_value.getValue() : 2; CHECK(g == e.second, "the filter is %d, want %d (0 false, 1 true, 2 error)", g, e.second); nontrivial();
}
HARNESS_MAIN
