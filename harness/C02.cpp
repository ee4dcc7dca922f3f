// C02: the three triple indexes of KVstore against a plain set of triples
#include "KVstore/KVstore.h"
#include "h.h"
using namespace std; using namespace H;
typedef unsigned U; struct T { U s, p, o; bool operator<(const T& b) const { return tie(s, p, o) < tie(b.s, b.p, b.o); } }; typedef set<T> Set; typedef vector<U> V;
struct Quiet { streambuf *a, *b; ostringstream o; Quiet() { a = cout.rdbuf(o.rdbuf()); b = cerr.rdbuf(o.rdbuf()); } ~Quiet() { cout.rdbuf(a); cerr.rdbuf(b); } };
static const U L = Util::LITERAL_FIRST_ID;
struct Dom { V s, p, o; };
static Dom dom(Rng& R) {
	Dom d; static const V ES = {0, 1, 2, 3, 5, 9, 17, 1023}, BIG = {1024, 1500, 5000}, EO = {0, 1, 2, 4, 8, 1023}, LO = {L, L + 1, L + 2, L + 3, L + 7, L + 1023}, LB = {L + 1024, L + 4000}, P = {0, 1, 2, 3, 4, 6, 11, 40}; bool big = R.coin(1, 4);
	auto take = [&](V& to, const V& from, int most) { int n = R.range(1, most); for (int i = 0; i < n; i++) to.push_back(R.pick(from)); };
	take(d.s, ES, 5); take(d.p, P, 6); take(d.o, EO, 4); if (R.coin(3, 4)) take(d.o, LO, 4); if (big) { take(d.s, BIG, 2); take(d.o, BIG, 2); take(d.o, LB, 2); } return d;
}
static T any(Rng& R, const Dom& d) { return T{R.pick(d.s), R.pick(d.p), R.pick(d.o)}; }
static T known(Rng& R, const Dom& d, const Set& m) { if (m.empty() || R.coin(1, 8)) return any(R, d); return *next(m.begin(), R.below(m.size())); }
// every lookup that concerns a triple of identifiers, against the set
#define SAME(name, want, call) { U* a = (U*)8; U n = 77777; bool r = call; V w = want; V g; if (r) g.assign(a, a + n); if (!(r ? g == w : w.empty() && n == 0 && a == nullptr)) return "" name " answers " + string(r ? show(g) : "nothing, length " + to_string(n)) + ", want " + show(w); if (r) delete[] a; }
static V uniq(V v, bool nd) { sort(v.begin(), v.end()); if (nd) v.erase(unique(v.begin(), v.end()), v.end()); return v; }
template <class F, class G> static V pick(const Set& m, F f, G g) { V v; for (auto& t : m) if (f(t)) v.push_back(g(t)); return v; }
static V pairs(const Set& m, function<bool(const T&)> f, function<pair<U, U>(const T&)> g) { vector<pair<U, U>> v; for (auto& t : m) if (f(t)) v.push_back(g(t)); sort(v.begin(), v.end()); V r; for (auto& x : v) { r.push_back(x.first); r.push_back(x.second); } return r; }
static string ask(KVstore& k, const Set& m, const T& q, bool nd, shared_ptr<Transaction> x) {
	auto S = [&](const T& t) { return t.s == q.s; }; auto P = [&](const T& t) { return t.p == q.p; }; auto O = [&](const T& t) { return t.o == q.o; };
	auto gs = [](const T& t) { return t.s; }; auto gp = [](const T& t) { return t.p; }; auto go = [](const T& t) { return t.o; };
	SAME("predicates of a subject", uniq(pick(m, S, gp), true), k.getpreIDlistBysubID(q.s, a, n, true, x))
	SAME("objects of a subject", uniq(pick(m, S, go), nd), k.getobjIDlistBysubID(q.s, a, n, nd, x))
	SAME("objects of a subject and a predicate", uniq(pick(m, [&](const T& t) { return S(t) && P(t); }, go), true), k.getobjIDlistBysubIDpreID(q.s, q.p, a, n, nd, x))
	SAME("predicate-object pairs of a subject", pairs(m, S, [](const T& t) { return make_pair(t.p, t.o); }), k.getpreIDobjIDlistBysubID(q.s, a, n, nd, x))
	SAME("predicates of an object", uniq(pick(m, O, gp), true), k.getpreIDlistByobjID(q.o, a, n, true, x))
	SAME("subjects of an object", uniq(pick(m, O, gs), nd), k.getsubIDlistByobjID(q.o, a, n, nd, x))
	SAME("subjects of an object and a predicate", uniq(pick(m, [&](const T& t) { return O(t) && P(t); }, gs), true), k.getsubIDlistByobjIDpreID(q.o, q.p, a, n, nd, x))
	SAME("predicate-subject pairs of an object", pairs(m, O, [](const T& t) { return make_pair(t.p, t.s); }), k.getpreIDsubIDlistByobjID(q.o, a, n, nd, x))
	SAME("subjects of a predicate", uniq(pick(m, P, gs), nd), k.getsubIDlistBypreID(q.p, a, n, nd, x))
	SAME("objects of a predicate", uniq(pick(m, P, go), nd), k.getobjIDlistBypreID(q.p, a, n, nd, x))
	SAME("subject-object pairs of a predicate", pairs(m, P, [](const T& t) { return make_pair(t.s, t.o); }), k.getsubIDobjIDlistBypreID(q.p, a, n, nd, x))
	SAME("predicates between a subject and an object", uniq(pick(m, [&](const T& t) { return S(t) && O(t); }, gp), true), k.getpreIDlistBysubIDobjID(q.s, q.o, a, n, nd, x))
	if (x) return "";
#define NUM(name, want, call) { U w = (want), g = (call); if (g != w) return name + string(" says ") + to_string(g) + ", want " + to_string(w); }
	auto cnt = [&](function<bool(const T&)> f) { U c = 0; for (auto& t : m) c += f(t); return c; };
	NUM("out degree", cnt(S), k.getEntityOutDegree(q.s)) if (q.o < L) { NUM("in degree", cnt(O), k.getEntityInDegree(q.o)) NUM("degree", cnt(O) + cnt([&](const T& t) { return t.s == q.o; }), k.getEntityDegree(q.o)) } else NUM("literal degree", cnt(O), k.getLiteralDegree(q.o))
	NUM("predicate degree", cnt(P), k.getPredicateDegree(q.p)) NUM("subject-predicate degree", cnt([&](const T& t) { return S(t) && P(t); }), k.getSubjectPredicateDegree(q.s, q.p)) NUM("object-predicate degree", cnt([&](const T& t) { return O(t) && P(t); }), k.getObjectPredicateDegree(q.o, q.p))
	NUM("existence", m.count(q), k.existThisTriple(q.s, q.p, q.o))
	return "";
}
struct Store {
	~Store() { if (k) k->release(); }      // the last state is not saved: that costs more than the rest of the case
	string dir; unique_ptr<KVstore> k; Store() { dir = scratch_dir() + "/kv"; mkdir(dir.c_str(), 0755); k.reset(new KVstore(dir)); }
	void create() { k->open_subID2values(KVstore::CREATE_MODE, 1); k->open_objID2values(KVstore::CREATE_MODE, 1, 1); k->open_preID2values(KVstore::CREATE_MODE, 1); }
	void reopen() { k->flush(); k.reset(); k.reset(new KVstore(dir)); open(); }
	void open() { k->open_subID2values(KVstore::READ_WRITE_MODE); k->open_objID2values(KVstore::READ_WRITE_MODE); k->open_preID2values(KVstore::READ_WRITE_MODE); }
	// bulk load of a set
	void build(const Set& m, Rng& R) {
		vector<ID_TUPLE> v; for (auto& t : m) { int c = R.below(4) ? 1 : R.range(1, 3); for (int i = 0; i < c; i++) v.push_back(ID_TUPLE{t.s, t.p, t.o}); }
		U e = 0, l = 0, p = 0; for (auto& t : m) { e = max(e, t.s + 1); p = max(p, t.p + 1); if (t.o < L) e = max(e, t.o + 1); else l = max(l, t.o - L + 1); }
		auto by = [&](int a, int b, int c) { sort(v.begin(), v.end(), [=](const ID_TUPLE& x, const ID_TUPLE& y) { U X[3] = {x.subid, x.preid, x.objid}, Y[3] = {y.subid, y.preid, y.objid}; return tie(X[a], X[b], X[c]) < tie(Y[a], Y[b], Y[c]); }); };
		by(0, 1, 2); k->build_subID2values(v.data(), v.size(), e); by(2, 1, 0); k->build_objID2values(v.data(), v.size(), e, l); by(1, 0, 2); k->build_preID2values(v.data(), v.size(), p); open();
	}
};
struct Out0 { int fd; Out0() { fflush(stdout); fd = dup(1); if (!freopen("/dev/null", "w", stdout)) _exit(8); } ~Out0() { fflush(stdout); dup2(fd, 1); close(fd); } };
#define ASK(q, when) { string e = ask(*st.k, m, q, R.coin(), nullptr); CHECK(e.empty(), "%s, about (%u %u %u): %s", when, (q).s, (q).p, (q).o, e.c_str()); }
static void start(Store& st, Set& m, const Dom& d, Rng& R) {
	if (R.coin()) { st.create(); note("empty "); return; }
	int n = R.range(1, 40); for (int i = 0; i < n; i++) m.insert(any(R, d)); st.build(m, R); note("bulk{"); for (auto& t : m) note("%u.%u.%u ", t.s, t.p, t.o); note("} ");
}
SUB(single, 3000, 60000) {     // one triple at a time
	Quiet q; Store st; Set m; Dom d = dom(R); start(st, m, d, R); int n = R.range(2, 150), bias = R.range(2, 6);
	for (int i = 0; i < n; i++) {
		bool ins = (int)R.below(8) < bias; T t = ins ? any(R, d) : known(R, d, m);
		if (ins == (m.count(t) > 0)) continue;      // Database asks first
		note("%c%u.%u.%u ", ins ? '+' : '-', t.s, t.p, t.o); bool r = ins ? st.k->updateTupleslist_insert(t.s, t.p, t.o) : st.k->updateTupleslist_remove(t.s, t.p, t.o);
		CHECK(r, "the update reports failure"); if (ins) m.insert(t); else m.erase(t);
		ASK(t, "after the update") T u = R.coin() ? any(R, d) : known(R, d, m); ASK(u, "elsewhere, after the update")
		if (R.below(150) == 0) { note("reopen "); st.reopen(); ASK(u, "after opening again") }
	}
	for (U s : d.s) for (U p : d.p) { T t{s, p, R.pick(d.o)}; ASK(t, "at the end") } for (U o : d.o) { T t{R.pick(d.s), R.pick(d.p), o}; ASK(t, "at the end") }
	if (m.size() > 2) nontrivial();
}
SUB(batch, 3000, 60000) {      // many at a time, in the order and grouping of Database::sub_batch_update; present and absent ones among them
	Quiet q; Store st; Set m; Dom d = dom(R); start(st, m, d, R); int n = R.range(1, 25), bias = R.range(2, 6);
	for (int i = 0; i < n; i++) {
		bool ins = (int)R.below(8) < bias; Set b; int k = R.range(1, R.coin(1, 4) ? 60 : 8); for (int j = 0; j < k; j++) b.insert(ins ? any(R, d) : known(R, d, m));
		note("%c{", ins ? '+' : '-'); for (auto& t : b) note("%u.%u.%u ", t.s, t.p, t.o); note("} ");
		U want = 0; for (auto& t : b) want += ins != (m.count(t) > 0); 
		map<U, V> bs, bp; map<U, set<pair<U, U>>> bo; for (auto& t : b) { bs[t.s].push_back(t.p); bs[t.s].push_back(t.o); bp[t.p].push_back(t.s); bp[t.p].push_back(t.o); bo[t.o].insert({t.p, t.s}); }
		U c1 = 0, c2 = 0, c3 = 0; for (auto& x : bs) c1 += ins ? st.k->updateInsert_s2values(x.first, x.second) : st.k->updateRemove_s2values(x.first, x.second); for (auto& x : bp) c2 += ins ? st.k->updateInsert_p2values(x.first, x.second) : st.k->updateRemove_p2values(x.first, x.second);
		for (auto& x : bo) { V v; for (auto& y : x.second) { v.push_back(y.first); v.push_back(y.second); } c3 += ins ? st.k->updateInsert_o2values(x.first, v) : st.k->updateRemove_o2values(x.first, v); }
		for (auto& t : b) if (ins) m.insert(t); else m.erase(t);
		CHECK(c1 == want && c2 == want && c3 == want, "%u triples change, reported %u by subject, %u by predicate, %u by object", want, c1, c2, c3);
		for (auto& t : b) if (R.coin()) ASK(t, "after the update") for (int j = 0; j < 3; j++) { T u = R.coin() ? any(R, d) : known(R, d, m); ASK(u, "elsewhere, after the update") }
		if (R.below(40) == 0) { note("reopen "); st.reopen(); }
	}
	for (U s : d.s) for (U p : d.p) { T t{s, p, R.pick(d.o)}; ASK(t, "at the end") } for (U o : d.o) { T t{R.pick(d.s), R.pick(d.p), o}; ASK(t, "at the end") }
	if (m.size() > 2) nontrivial();
}
SUB(txn, 3000, 60000) {        // a transaction sees the store with its own changes; one that began with it sees the store without them
	Quiet q; Store st; Set m; Dom d = dom(R); start(st, m, d, R); Set base = m; static const IsolationLevelType I[] = {IsolationLevelType::SNAPSHOT, IsolationLevelType::READ_COMMITTED}; auto iso = I[R.below(2)]; auto x = make_shared<Transaction>("db", 0, 5, iso), y = make_shared<Transaction>("db", 0, 6, iso); int n = R.range(1, 60);
	for (int i = 0; i < n; i++) {
		bool ins = R.coin(); T t = ins ? any(R, d) : known(R, d, m); if (m.count(t) == ins && R.coin(3, 4)) continue; note("%c%u.%u.%u ", ins ? '+' : '-', t.s, t.p, t.o);
		CHECK(st.k->GetExclusiveLock(t.s, t.p, t.o, x), "nobody holds these lists, but the transaction is refused"); bool r = ins ? st.k->updateTupleslist_insert(t.s, t.p, t.o, x) : st.k->updateTupleslist_remove(t.s, t.p, t.o, x); CHECK(r, "the update reports failure"); x->WriteSetInsert(IDTriple(t.s, t.p, t.o)); if (ins) m.insert(t); else m.erase(t);
		for (int j = 0; j < 3; j++) { T u = j == 0 ? t : R.coin() ? any(R, d) : known(R, d, m); bool nd = R.coin(); string e = ask(*st.k, m, u, nd, x); CHECK(e.empty(), "the writer asks about (%u %u %u): %s", u.s, u.p, u.o, e.c_str()); e = ask(*st.k, base, u, nd, y); CHECK(e.empty(), "another transaction asks about (%u %u %u): %s", u.s, u.p, u.o, e.c_str()); }
	}
	if (m.size() > 2) nontrivial();
}
HARNESS_MAIN
