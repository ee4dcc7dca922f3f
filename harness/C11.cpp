#include "Util/Util.h"
#include "Util/IDTriple.h"
#include "h.h"
using namespace std; using namespace H;
static unsigned val(Rng& R) { static const unsigned V[] = {0, 1, 2, 3, 7, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 1999999999u, 2000000000u, 2000000001u, 0xfffffffeu, 0xffffffffu}; return R.coin(4, 5) ? V[R.below(14)] : (unsigned)R.next(); }
struct T { unsigned s, p, o; unsigned at(char c) const { return c == 's' ? s : c == 'p' ? p : o; } };
static bool lex(const T& a, const T& b, const char* ord) { for (int i = 0; i < 3; i++) if (a.at(ord[i]) != b.at(ord[i])) return a.at(ord[i]) < b.at(ord[i]); return false; }
static T gen(Rng& R, const T* like) { T t{val(R), val(R) & 0x7fffffffu, val(R)}; if (like) { if (R.coin()) t.s = like->s; if (R.coin()) t.p = like->p; if (R.coin()) t.o = like->o; } return t; }
SUB(compare, 200000, 4000000) {
	T a = gen(R, 0), b = gen(R, &a); note("a=(%u,%u,%u) b=(%u,%u,%u)", a.s, a.p, a.o, b.s, b.p, b.o);
	ID_TUPLE x(a.s, a.p, a.o), y(b.s, b.p, b.o); IDTriple u(a.s, a.p, a.o), v(b.s, b.p, b.o);
	bool eq = a.s == b.s && a.p == b.p && a.o == b.o;
	CHECK(Util::spo_cmp_idtuple(x, y) == lex(a, b, "spo"), "spo order wrong");
	CHECK(Util::ops_cmp_idtuple(x, y) == lex(a, b, "ops"), "ops order wrong");
	CHECK(Util::pso_cmp_idtuple(x, y) == lex(a, b, "pso"), "pso order wrong");
	CHECK(Util::equal(x, y) == eq, "equality of id tuples wrong");
	CHECK((u < v) == lex(a, b, "spo"), "IDTriple < wrong"); CHECK((u > v) == lex(b, a, "spo"), "IDTriple > wrong"); CHECK(u.operator=(v) == eq, "IDTriple equality wrong");
	CHECK(!(u < u) && !(u > u), "a triple is ordered before itself");
	int c = Util::cmp_unsigned(&a.s, &b.s); CHECK((c < 0) == (a.s < b.s) && (c == 0) == (a.s == b.s), "cmp_unsigned wrong");
	CHECK(Util::parallel_cmp_unsigned(a.s, b.s) == (a.s < b.s), "parallel_cmp_unsigned wrong");
	int ia[3] = {(int)(a.s & 0x7fffffff), (int)a.p, (int)(a.o & 0x7fffffff)}, ib[3] = {(int)(b.s & 0x7fffffff), (int)b.p, (int)(b.o & 0x7fffffff)}; int *pa = ia, *pb = ib;
	T na{(unsigned)ia[0], (unsigned)ia[1], (unsigned)ia[2]}, nb{(unsigned)ib[0], (unsigned)ib[1], (unsigned)ib[2]};
	auto one = [&](const char* ord, bool less, int c3) { CHECK(less == lex(na, nb, ord), "parallel %s order wrong", ord); CHECK((c3 < 0) == lex(na, nb, ord) && (c3 > 0) == lex(nb, na, ord), "qsort %s order wrong", ord); };
	one("spo", Util::parallel_spo_cmp(ia, ib), Util::_spo_cmp(&pa, &pb)); one("ops", Util::parallel_ops_cmp(ia, ib), Util::_ops_cmp(&pa, &pb)); one("pso", Util::parallel_pso_cmp(ia, ib), Util::_pso_cmp(&pa, &pb));
	nontrivial();
}
SUB(sortall, 3000, 60000) {
	int n = R.range(0, 200); vector<T> t; for (int i = 0; i < n; i++) t.push_back(gen(R, t.empty() ? 0 : &t[R.below(t.size())]));
	note("%d triples", n);
	for (auto ord : {"spo", "ops", "pso"}) {
		vector<ID_TUPLE> v; for (auto& x : t) v.push_back(ID_TUPLE(x.s, x.p, x.o));
		sort(v.begin(), v.end(), ord[0] == 's' ? Util::spo_cmp_idtuple : ord[0] == 'o' ? Util::ops_cmp_idtuple : Util::pso_cmp_idtuple);
		vector<T> w = t; sort(w.begin(), w.end(), [&](const T& a, const T& b) { return lex(a, b, ord); });
		auto e = unique(v.begin(), v.end(), Util::equal); w.erase(unique(w.begin(), w.end(), [](const T& a, const T& b) { return a.s == b.s && a.p == b.p && a.o == b.o; }), w.end());
		CHECK((size_t)(e - v.begin()) == w.size(), "%s: %zu distinct triples want %zu", ord, (size_t)(e - v.begin()), w.size());
		for (size_t i = 0; i < w.size(); i++) CHECK(v[i].subid == w[i].s && v[i].preid == w[i].p && v[i].objid == w[i].o, "%s: position %zu wrong", ord, i);
	}
	set<IDTriple> S; set<vector<unsigned>> W; for (auto& x : t) { S.insert(IDTriple(x.s, x.p, x.o)); S.insert(IDTriple(x.s, x.p, x.o)); W.insert({x.s, x.p, x.o}); }
	CHECK(S.size() == W.size(), "a set of triples holds %zu of %zu distinct ones", S.size(), W.size());
	vector<unsigned> ids; for (auto& x : t) ids.push_back(x.s); vector<unsigned> want = ids; sort(want.begin(), want.end());
	unsigned* p = new unsigned[n + 1]; for (int i = 0; i < n; i++) p[i] = ids[i]; Util::sort(p, n); bool ok = equal(want.begin(), want.end(), p); delete[] p; CHECK(ok, "Util::sort does not sort");
	nontrivial();
}
HARNESS_MAIN
