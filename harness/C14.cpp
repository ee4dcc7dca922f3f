// C14: the heap of buffered tree nodes and the min-max heap of top-k queries
#include "h.h"
#include "KVstore/SITree/heap/SIHeap.h"
#include "KVstore/SITree/SITree.h"
#include "Query/topk/DPB/Pool.h"
#include "Query/topk/MinMaxHeap.hpp"
using namespace std; using namespace H;
static const char* heapOk(SIHeap& h, set<SINode*>& in) {
	if (h.getLen() != in.size() || h.isEmpty() != in.empty()) return "the number of elements is wrong";
	if (in.empty()) return h.getTop() == nullptr ? nullptr : "an empty heap reports a top element";
	unsigned lo = ~0u; for (auto* n : in) lo = min(lo, n->getRank());
	if (!h.getTop() || !in.count(h.getTop())) return "the top is not an element of the heap";
	if (h.getTop()->getRank() != lo) return "the top is not the element of smallest rank";
	set<SINode*> seen;
	for (unsigned i = 0; i < h.getLen(); i++) { if (!in.count(h.heap[i]) || !seen.insert(h.heap[i]).second) return "an element is lost or duplicated"; if (h.heap[i]->heapId != (int)i) return "an element does not know its place"; }
	return nullptr;
}
SUB(siheap, 6000, 200000) {
	int cap = R.pick(vector<int>{0, 1, 2, 3, 8, 64}), N = R.pick(vector<int>{3, 8, 20, 60, 200}), top = R.pick(vector<int>{2, 6, 40, 1 << 20}); bool up = R.coin(), sortedIns = R.coin(1, 4);
	SIHeap h(cap); vector<SILeafNode> pool(N); set<SINode*> in; vector<SINode*> out; for (auto& n : pool) out.push_back(&n); int ops = R.range(5, N * 5); const char* e;
	note("capacity %d, %d nodes: ", cap, N); int r0 = 0;
	for (int o = 0; o < ops; o++) {
		int w = R.range(0, 9); bool grow = up ? w < 6 : w < 3;
		if (o < N / 2 ? w < 8 : grow) { if (out.empty()) continue; int i = R.below(out.size()); SINode* n = out[i]; out.erase(out.begin() + i); n->setRank(sortedIns ? r0++ % (1 << 20) : R.below(top)); note("+%u ", n->getRank()); CHECK(h.Insert(n), "insertion fails"); in.insert(n); }
		else if (w < 8 && !in.empty()) {
			auto it = in.begin(); advance(it, R.below(in.size())); SINode* n = *it; unsigned old = n->getRank(), nw = R.below(top); if (nw == old) continue; note("%u->%u ", old, nw); n->setRank(nw); CHECK(h.modify(n, nw < old), "changing the rank of an element fails");
		} else if (!in.empty()) { SINode* t = h.getTop(); note("-top "); CHECK(h.RemoveTop(), "removing the top fails"); in.erase(t); out.push_back(t); CHECK(t->heapId == -1, "the removed element still claims a place"); CHECK(!h.modify(t, R.coin()), "a removed element can be changed in the heap"); }
		e = heapOk(h, in); CHECK(!e, "after operation %d of %d: %s", o, ops, e);
	}
	unsigned last = 0; while (!in.empty()) { SINode* t = h.getTop(); CHECK(t && t->getRank() >= last, "draining: ranks come out as %u after %u", t ? t->getRank() : 0, last); last = t->getRank(); CHECK(h.RemoveTop(), "removing the top fails"); in.erase(t); e = heapOk(h, in); CHECK(!e, "draining: %s", e); }
	CHECK(!h.RemoveTop() && h.getTop() == nullptr, "an empty heap yields an element"); nontrivial();
}
struct Big { double cost; int id; bool operator<(const Big& o) const { return cost < o.cost; } };
template <class T, class V, class K> static bool mm(Rng& R, int ops, int top, V val, K key) {
	minmax::MinMaxHeap<T> h; multiset<double> m; map<int, double> ids; int next = 0; bool up = R.coin();
	for (int o = 0; o < ops; o++) {
		int w = R.range(0, 9);
		if (m.empty() || (up || o < ops / 2 ? w < 6 : w < 3)) { double v = R.below(top); T x = val(v, next); ids[next++] = v; note("+%g ", v); if (R.coin()) h.push(x); else h.push(std::move(x)); m.insert(v); }
		else {
			bool mn = w % 2; note(mn ? "-min " : "-max "); T x = mn ? h.popMin() : R.coin() ? h.popMax() : h.pop(); double v = key(x).first; int id = key(x).second; auto it = mn ? m.begin() : prev(m.end());
			if (v != *it) return fail("operation %d of %d: removing the %s gives %g instead of %g", o, ops, mn ? "minimum" : "maximum", v, *it);
			if (id >= 0) { if (!ids.count(id) || ids[id] != v) return fail("operation %d: an element is given out twice or altered", o); ids.erase(id); }
			m.erase(it);
		}
		if (h.empty() != m.empty() || h.size() != m.size()) return fail("operation %d: size %u instead of %zu", o, h.size(), m.size());
		if (!m.empty() && (key(h.findMin()).first != *m.begin() || key(h.findMax()).first != *m.rbegin())) return fail("operation %d of %d: smallest %g, largest %g reported instead of %g, %g", o, ops, key(h.findMin()).first, key(h.findMax()).first, *m.begin(), *m.rbegin());
	}
	bool mn = R.coin(); while (!m.empty()) { T x = mn ? h.popMin() : h.popMax(); auto it = mn ? m.begin() : prev(m.end()); if (key(x).first != *it) return fail("draining from the %s: %g instead of %g (%zu left)", mn ? "bottom" : "top", key(x).first, *it, m.size()); m.erase(it); if (R.coin(1, 4)) mn = !mn; }
	for (int i = 0; i < 4; i++) { bool thrown = false; try { if (i == 0) h.popMin(); else if (i == 1) h.popMax(); else if (i == 2) h.findMin(); else h.findMax(); } catch (underflow_error&) { thrown = true; } if (!thrown) return fail("an empty heap yields an element"); }
	return true;
}
SUB(minmax, 12000, 400000) {
	int ops = R.pick(vector<int>{6, 20, 60, 300}), top = R.pick(vector<int>{2, 5, 30, 1000000}), t = R.below(4); note("type %d: ", t); bool ok;
	if (t == 0) ok = mm<int>(R, ops, top, [](double v, int) { return (int)v; }, [](const int& x) { return make_pair((double)x, -1); });
	else if (t == 1) ok = mm<DPB::element>(R, ops, top, [](double v, int id) { DPB::element e; e.node = id; e.index = id; e.cost = v; return e; }, [](const DPB::element& x) { return make_pair(x.cost, (int)x.node); });
	else if (t == 2) ok = mm<DPB::FqElement>(R, ops, top, [](double v, int id) { DPB::FqElement e; e.seq = DPB::sequence(1 + id % 5, id); e.cost = v; return e; }, [](const DPB::FqElement& x) { return make_pair(x.cost, x.seq.empty() ? -2 : (int)x.seq[0]); });
	else ok = mm<Big>(R, ops, top, [](double v, int id) { return Big{v, id}; }, [](const Big& x) { return make_pair(x.cost, x.id); });
	if (ok) nontrivial();
}
HARNESS_MAIN
