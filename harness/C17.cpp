// C17: ordered lists of top-k queries against the brute-force list of all combinations
#include "h.h"
#include "Query/topk/DPB/OrderedList.h"
using namespace std; using namespace H;
typedef TYPE_ENTITY_LITERAL_ID Id; typedef vector<Id> Rec; typedef pair<double, Rec> Ans; typedef vector<Ans> List;
struct Made { shared_ptr<OrderedList> l; List all; NodeOneChildVarPredicatesPtr pred; };
struct Gen {
	Rng& R; int top; bool neg; int k; vector<pair<Id, Made>> fqs; Id next; size_t limit; bool share; bool wide;
	double score() { double v = R.below(top); if (wide) v = v * 0.25 + 16777216.0 * R.below(3); return neg ? -v : v; }
	Made ow(int maxn) {
		Made m; auto o = make_shared<OWIterator>(); m.pred = make_shared<NodeOneChildVarPredicates>(); vector<Id> ids; vector<double> sc; int n = R.range(0, 9) == 0 ? 1 : R.range(1, maxn); bool scored = R.coin(3, 4);
		for (int i = 0; i < n; i++) { Id id = next++; ids.push_back(id); double v = scored ? score() : 0; sc.push_back(v); auto p = make_shared<OnePointPredicateVec>(); int np = R.range(0, 2); for (int j = 0; j < np; j++) p->push_back(5000 + R.below(50)); (*m.pred)[id] = p; Rec r(*p); r.push_back(id); m.all.push_back({v, r}); }
		note("OW%s ", show(sc).c_str());
		if (scored) o->Insert(ids, sc); else o->Insert(ids);
		m.l = o; return m;
	}
	Made fr(int depth, int maxn) {
		Made m; auto f = make_shared<FRIterator>(); int n = R.range(0, 12) == 0 ? 1 : R.range(1, maxn); note("FR{ "); set<Id> used;
		for (int i = 0; i < n; i++) {
			pair<Id, Made> q; if (share && !fqs.empty() && R.coin(1, 3)) { q = R.pick(fqs); note("again%u ", q.first); } else { q = fq(depth, maxn); fqs.push_back(q); }
			if (!used.insert(q.first).second || q.second.all.empty() || m.all.size() + q.second.all.size() > limit) continue;
			auto p = make_shared<OnePointPredicateVec>(); int np = R.range(0, 2); for (int j = 0; j < np; j++) p->push_back(7000 + R.below(50));
			f->Insert(q.first, q.second.l, p);
			for (auto& a : q.second.all) { Rec r(*p); r.insert(r.end(), a.second.begin(), a.second.end()); m.all.push_back({a.first, r}); }
		}
		note("} "); m.l = f; return m;
	}
	pair<Id, Made> fq(int depth, int maxn) {
		int now = R.range(depth > 0 ? 0 : 1, 3), nfr = depth > 0 ? R.range(now ? 0 : 1, 2) : 0; Id id = next++; double sc = R.coin(2, 3) ? score() : 0; Made m; note("FQ%u(%g: ", id, sc);
		auto f = make_shared<FQIterator>(k, id, now + nfr, sc); m.all.push_back({sc, Rec{id}}); vector<shared_ptr<OrderedList>> kids; 
		for (int i = 0; i < now + nfr; i++) {
			Made c = i < now ? ow(maxn) : fr(depth - 1, maxn);
			if (c.all.size() * m.all.size() > limit) { c = Made(); auto o = make_shared<OWIterator>(); Id x = next++; auto p = make_shared<NodeOneChildVarPredicates>(); (*p)[x] = make_shared<OnePointPredicateVec>(); o->Insert(vector<Id>{x}, vector<double>{1}); c.l = o; c.pred = p; c.all.push_back({1, Rec{x}}); if (i >= now) { // keep the kind: wrap it into an FR with one FQ
					auto inner = make_shared<FQIterator>(k, next++, 1, 0); inner->Insert(c.l); inner->AddOneTypePredicate(p); inner->TryGetNext(k); auto w = make_shared<FRIterator>(); auto e = make_shared<OnePointPredicateVec>(); Id iid = inner->GetNodeID(); w->Insert(iid, inner, e); c.l = w; c.all = List{{1, Rec{iid, x}}}; } }
			kids.push_back(c.l); if (c.l->Type() == OrderedListType::OW) f->AddOneTypePredicate(c.pred);
			List nx; for (auto& a : m.all) for (auto& b : c.all) { Rec r(a.second); r.insert(r.end(), b.second.begin(), b.second.end()); nx.push_back({a.first + b.first, r}); }
			m.all.swap(nx);
		}
		if (R.coin()) f->Insert(kids); else for (auto& c : kids) f->Insert(c);
		note(") "); if (!m.all.empty()) f->TryGetNext(k); m.l = f; return {id, m};
	}
};
static void drain(Rng& R, Made& m, int k) {
	List want = m.all; sort(want.begin(), want.end()); vector<double> costs; for (auto& a : want) costs.push_back(a.first); map<Ans, int> left; for (auto& a : want) left[a]++;
	size_t n = want.size(); bool fq = m.l->Type() == OrderedListType::FQ;
	for (size_t i = 0; i < n + 3; i++) {
		if (!(fq && i < m.l->pool_.size())) m.l->TryGetNext(k);
		if (i >= n) { CHECK(m.l->pool_.size() == n, "there are %zu combinations, %zu are given", n, m.l->pool_.size()); continue; }
		CHECK(m.l->pool_.size() > i, "the list ends after %zu of %zu combinations", i, n);
		double c = m.l->pool_[i].cost; CHECK(c == costs[i], "answer %zu of %zu has score %g, the right one is %g", i, n, c, costs[i]);
		Rec r; m.l->GetResult((int)i, r); auto it = left.find(Ans(c, r)); CHECK(it != left.end(), "answer %zu (score %g, %s) is no combination with that score", i, c, show(r).c_str()); CHECK(it->second > 0, "answer %zu (%s) is given twice", i, show(r).c_str()); it->second--;
		if (i && R.below(8) == 0) { size_t j = R.below(i); Rec q; m.l->GetResult((int)j, q); auto jt = left.find(Ans(m.l->pool_[j].cost, q)); CHECK(jt != left.end(), "reading answer %zu again gives another combination", j); }
	}
	if (n > 3) nontrivial();
}
SUB(trees, 4000, 100000) {
	Gen g{R, R.pick(vector<int>{1, 2, 4, 12, 100}), R.coin(1, 4), R.pick(vector<int>{1, 1, 2, 3, 10, 50}), {}, 1, R.pick(vector<size_t>{30, 120, 500}), R.coin(), R.coin(1, 5)}; int depth = R.range(0, 3), mx = R.pick(vector<int>{2, 3, 6}); note("k %d: ", g.k);
	Made m; if (R.coin(3, 4)) m = g.fr(depth, mx); else m = g.fq(depth, mx).second;
	if (m.l->Type() == OrderedListType::FQ && m.all.empty()) return;
	drain(R, m, g.k);
	for (auto& q : g.fqs) if (!q.second.all.empty() && R.below(3) == 0) drain(R, q.second, g.k);      // shared parts, already partly used by others
}
SUB(flat, 3000, 60000) {      // one node with lists of leaves: the product in order
	Gen g{R, R.pick(vector<int>{1, 3, 10, 1000}), R.coin(1, 4), R.pick(vector<int>{1, 2, 5, 20}), {}, 1, 800, false, R.coin(1, 5)}; note("k %d: ", g.k); Made m = g.fq(0, 9).second; drain(R, m, g.k);
}
SUB(leaves, 2000, 40000) {    // a leaf list by itself
	Gen g{R, R.pick(vector<int>{1, 3, 10, 1000}), R.coin(1, 4), 5, {}, 1, 800, false, R.coin(1, 5)}; Made m = g.ow(40); 
	CHECK(m.l->pool_.size() == m.all.size(), "a leaf list of %zu holds %zu", m.all.size(), m.l->pool_.size()); map<Ans, int> left; for (auto& a : m.all) left[a]++; double last = -1e18;
	for (size_t i = 0; i < m.all.size(); i++) { Rec r; double c = m.l->pool_[i].cost; CHECK(c >= last, "score %g after %g", c, last); last = c; CHECK(m.l->pool_[i].index == i, "place %zu holds index %u", i, m.l->pool_[i].index); m.l->GetResult((int)i, r, m.pred); CHECK(left[Ans(c, r)] > 0, "answer %zu is no leaf or is given twice", i); left[Ans(c, r)]--; }
	if (m.all.size() > 3) nontrivial();
}
SUB(seen, 3000, 60000) {      // duplicate suppression: a sequence is reported exactly when its last parent is
	int depth = R.range(1, 4), k = R.range(1, 4), top = R.range(1, 5); DPB::DynamicTrie t(depth, k); DPB::sequence z(depth, 0); t.insert(z); map<DPB::sequence, int> seen; note("depth %d: ", depth);
	vector<DPB::sequence> all; function<void(DPB::sequence&, int)> rec = [&](DPB::sequence& s, int i) { if (i == depth) { all.push_back(s); return; } for (int v = 0; v < top; v++) { s[i] = v; rec(s, i + 1); } }; DPB::sequence tmp(depth, 0); rec(tmp, 0);
	vector<pair<int, int>> ev; for (size_t i = 0; i < all.size(); i++) for (int j = 0; j < depth; j++) if (R.coin(4, 5)) ev.push_back({(int)i, j}); for (size_t i = ev.size(); i > 1; i--) swap(ev[i - 1], ev[R.below(i)]); if (ev.size() > 400) ev.resize(400);
	for (auto& e : ev) { auto s = all[e.first]; s[e.second]++; int parents = 0; for (unsigned v : s) parents += v != 0; seen[s]++; bool got = t.detect(s); note("%s ", show(s).c_str()); CHECK(got == (seen[s] == parents), "parent %d of %d of %s: reported %d", seen[s], parents, show(s).c_str(), got); }
	if (ev.size() > 10) nontrivial();
}
HARNESS_MAIN
