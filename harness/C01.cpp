#include "h.h"
#include "../Util/Util.h"
#include "../Query/IDList.h"
using namespace std;
typedef vector<unsigned> V;

static V gen(H::Rng& R, int n, bool dup, int mode) {
	V v; uint64_t span = mode == 0 ? n + 2 : mode == 1 ? 4ull * n + 5 : mode == 2 ? 0xfffffffeull : 64;
	unsigned base = mode == 3 ? 2000000000u - 30 : 0;
	if (mode == 4) base = 0xffffffffu - 70;
	for (int i = 0; i < n; i++) v.push_back(base + (unsigned)R.below(span));
	sort(v.begin(), v.end());
	if (!dup) v.erase(unique(v.begin(), v.end()), v.end());
	return v;
}
static int size_of(H::Rng& R) { int k = R.range(0, 9); return k < 5 ? R.range(0, 6) : k < 8 ? R.range(0, 40) : R.range(0, 400); }
static unsigned* heap(const V& v) { unsigned* p = new unsigned[v.size() ? v.size() : 1]; for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }
static unsigned* exact(const V& v) { unsigned* p = new unsigned[v.size()]; for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }

SUB(search, 60000, 2000000) {
	V v = gen(R, size_of(R), R.coin(), R.range(0, 4));
	unsigned key = v.size() && R.coin(2, 3) ? v[R.below(v.size())] + (R.coin() ? 0 : R.range(-1, 1)) : (unsigned)R.next();
	if (key == INVALID) key = 7;
	H::note("key=%u list=%s", key, H::show(v).c_str());
	unsigned* p = exact(v);
	unsigned r = Util::bsearch_int_uporder(key, p, v.size());
	unsigned r2 = Util::bsearch_vec_uporder(key, &v);
	IDList l; for (unsigned x : v) l.addID(x);
	unsigned r3 = l.bsearch_uporder(key); bool r4 = l.isExistID(key);
	bool in = binary_search(v.begin(), v.end(), key);
	delete[] p;
	unsigned rs[3] = {r, r2, r3};
	for (int i = 0; i < 3; i++) {
		CHECK(in == (rs[i] != INVALID), "search %d: present=%d but result=%u", i, in, rs[i]);
		CHECK(!in || (rs[i] < v.size() && v[rs[i]] == key), "search %d: position %u does not hold the key", i, rs[i]);
	}
	CHECK(r4 == in, "isExistID=%d present=%d", r4, in);
	if (v.size() > 1) H::nontrivial();
}

SUB(duplicates, 30000, 500000) {
	V v = gen(R, size_of(R), true, R.range(0, 4));
	H::note("list=%s", H::show(v).c_str());
	unsigned* p = exact(v); unsigned n = Util::removeDuplicate(p, v.size());
	V got(p, p + min<size_t>(n, v.size())); delete[] p;
	V w = v; w.erase(unique(w.begin(), w.end()), w.end());
	CHECK(n == w.size() && got == w, "removeDuplicate gave %s (%u)", H::show(got).c_str(), n);
	V u; int m = size_of(R); for (int i = 0; i < m; i++) u.push_back(R.coin() ? (unsigned)R.next() : (unsigned)R.below(50));
	H::note(" unsorted=%s", H::show(u).c_str());
	unsigned* q = heap(u); Util::sort(q, u.size()); V s(q, q + u.size()); delete[] q;
	IDList l; for (unsigned x : u) l.addID(x); l.sort(); V s2 = *l.getList();
	sort(u.begin(), u.end());
	CHECK(s == u, "Util::sort gave %s", H::show(s).c_str());
	CHECK(s2 == u, "IDList::sort gave %s", H::show(s2).c_str());
	if (v.size() > 1) H::nontrivial();
}

static void two(H::Rng& R, V& a, V& b, bool dup) {
	int n = size_of(R), m = R.coin() ? size_of(R) : R.coin() ? n * R.range(1, 30) : n / (1 + R.below(30));
	int mode = R.range(0, 4); a = gen(R, n, dup, mode); b = gen(R, m, dup, mode);
	if (R.coin(1, 4)) { for (unsigned x : a) if (R.coin()) b.push_back(x); sort(b.begin(), b.end()); if (!dup) b.erase(unique(b.begin(), b.end()), b.end()); }
}
SUB(intersect, 60000, 2000000) {
	V a, b; two(R, a, b, false);
	H::note("a=%s b=%s", H::show(a).c_str(), H::show(b).c_str());
	V want; set_intersection(a.begin(), a.end(), b.begin(), b.end(), back_inserter(want));
	{ unsigned* out = nullptr; unsigned len = 777;
	  Util::intersect(out, len, heap(a), a.size(), heap(b), b.size());
	  V got; if (out) got.assign(out, out + len); delete[] out;
	  CHECK(len == want.size() && got == want, "Util::intersect gave %s (%u), want %s", H::show(got).c_str(), len, H::show(want).c_str()); }
	{ IDList l; for (unsigned x : a) l.addID(x); unsigned* p = exact(b);
	  unsigned rem = l.intersectList(p, b.size()); delete[] p;
	  CHECK(*l.getList() == want, "IDList::intersectList gave %s want %s", H::show(*l.getList()).c_str(), H::show(want).c_str());
	  CHECK(rem == a.size() - want.size(), "intersectList returned %u, removed %zu", rem, a.size() - want.size()); }
	{ IDList l, l2; for (unsigned x : a) l.addID(x); for (unsigned x : b) l2.addID(x);
	  unsigned rem = l.intersectList(l2);
	  CHECK(*l.getList() == want && *l2.getList() == b && rem == a.size() - want.size(), "IDList::intersectList(IDList) gave %s", H::show(*l.getList()).c_str()); }
	{ IDList l; for (unsigned x : a) l.addID(x); unsigned* p = exact(b);
	  IDList* r = IDList::intersect(l, p, b.size());
	  bool same = V(p, p + b.size()) == b; delete[] p;
	  V got = *r->getList(); delete r;
	  CHECK(got == want, "IDList::intersect gave %s want %s", H::show(got).c_str(), H::show(want).c_str());
	  CHECK(same && *l.getList() == a, "IDList::intersect changed an argument"); }
	if (want.size()) H::nontrivial();
}
SUB(multiset_intersect, 40000, 1000000) {
	V a, b; two(R, a, b, true);
	H::note("a=%s b=%s", H::show(a).c_str(), H::show(b).c_str());
	V want; set_intersection(a.begin(), a.end(), b.begin(), b.end(), back_inserter(want));
	IDList l; for (unsigned x : a) l.addID(x); unsigned* p = exact(b);
	unsigned rem = l.intersectList(p, b.size()); delete[] p;
	CHECK(*l.getList() == want, "IDList::intersectList on multisets gave %s want %s", H::show(*l.getList()).c_str(), H::show(want).c_str());
	CHECK(rem == a.size() - want.size(), "intersectList returned %u, removed %zu", rem, a.size() - want.size());
	if (want.size()) H::nontrivial();
}
SUB(unite, 40000, 1000000) {
	V a, b; two(R, a, b, false);
	H::note("a=%s b=%s", H::show(a).c_str(), H::show(b).c_str());
	V want; set_union(a.begin(), a.end(), b.begin(), b.end(), back_inserter(want));
	{ IDList l; for (unsigned x : a) l.addID(x); unsigned* p = exact(b);
	  unsigned add = l.unionList(p, b.size()); delete[] p;
	  CHECK(*l.getList() == want, "unionList gave %s want %s", H::show(*l.getList()).c_str(), H::show(want).c_str());
	  CHECK(add == want.size() - a.size(), "unionList returned %u", add); }
	{ IDList l, l2; for (unsigned x : a) l.addID(x); for (unsigned x : b) l2.addID(x);
	  unsigned add = l.unionList(l2);
	  CHECK(*l.getList() == want && add == want.size() - a.size(), "unionList(IDList) gave %s (%u)", H::show(*l.getList()).c_str(), add); }
	{ V lit; for (unsigned x : b) if (x >= 2000000000u) lit.push_back(x);
	  V ent; for (unsigned x : a) if (x < 2000000000u) ent.push_back(x);
	  V w = ent; w.insert(w.end(), lit.begin(), lit.end());
	  IDList l; for (unsigned x : ent) l.addID(x); unsigned* p = exact(b);
	  unsigned add = l.unionList(p, b.size(), true); delete[] p;
	  CHECK(*l.getList() == w, "unionList(only_literal) gave %s want %s", H::show(*l.getList()).c_str(), H::show(w).c_str());
	  CHECK(add == lit.size(), "unionList(only_literal) returned %u, added %zu", add, lit.size()); }
	if (a.size() && b.size()) H::nontrivial();
}
// the keyed list used by top-k: joining keeps exactly the keys on both sides and appends the new columns
SUB(appending, 20000, 300000) {
	int w1 = R.range(1, 3), w2 = R.range(1, 3); V a = gen(R, R.range(0, 12), false, R.range(0, 1)), b = gen(R, R.coin() ? R.range(0, 12) : R.range(0, 200), false, R.range(0, 1));
	int k1 = R.below(w1), k2 = R.coin(2, 3) ? 0 : R.below(w2);
	V ra, rb; map<unsigned, V> ma, want;
	for (unsigned x : a) { V row; for (int j = 0; j < w1; j++) { unsigned y = j == k1 ? x : (unsigned)R.below(1000); ra.push_back(y); if (j != k1) row.push_back(y); } ma[x] = row; }
	for (unsigned x : b) { V row; for (int j = 0; j < w2; j++) { unsigned y = j == k2 ? x : (unsigned)R.below(1000); rb.push_back(y); if (j != k2) row.push_back(y); }
		if (ma.count(x)) { V f = ma[x]; f.insert(f.end(), row.begin(), row.end()); want[x] = f; } }
	H::note("rows=%s width=%d key=%d other=%s width=%d key=%d", H::show(ra).c_str(), w1, k1, H::show(rb).c_str(), w2, k2);
	unsigned *p = exact(ra), *q = exact(rb);
	IDListWithAppending l(p, a.size(), w1, k1);
	for (auto& x : ma) { auto it = l.contents_->find(x.first); CHECK(it != l.contents_->end() && *it->second == x.second, "construction lost or changed key %u", x.first); }
	l.Intersect(q, b.size(), w2, k2);
	map<unsigned, V> got; for (auto& x : *l.contents_) got[x.first] = *x.second;
	delete[] p; delete[] q;
	if (got != want) { ostringstream o; for (auto& x : got) o << x.first << ":" << H::show(x.second) << " "; o << " want "; for (auto& x : want) o << x.first << ":" << H::show(x.second) << " "; H::fail("Intersect gave %s", o.str().c_str()); return; }
	if (want.size()) H::nontrivial();
}
HARNESS_MAIN
