// C12: strings and identifiers of a whole Database object against a plain set of triples of strings
#include "Database/Database.h"
#include "h.h"
using namespace std; using namespace H;
// the string index is no part of the property: it is told of changes only
void StringIndex::SetTrie(Trie*) {}
void StringIndex::change(vector<unsigned>&, KVstore&, bool) {}
void StringIndex::disable(vector<unsigned>&, bool) {}
typedef unsigned U; struct T { string x[3]; string& operator[](int i) { return x[i]; } const string& operator[](int i) const { return x[i]; } bool operator<(const T& b) const { for (int i = 0; i < 3; i++) if (x[i] != b.x[i]) return x[i].compare(b.x[i]) < 0; return false; } }; typedef set<T> Set; static const U L = Util::LITERAL_FIRST_ID;
struct Quiet { streambuf *a, *b; ostringstream o; Quiet() { a = cout.rdbuf(o.rdbuf()); b = cerr.rdbuf(o.rdbuf()); } ~Quiet() { cout.rdbuf(a); cerr.rdbuf(b); } };
struct Store {
	unique_ptr<Database> d; KVstore* k;
	Store() {
		string dir = scratch_dir(); Util::global_config["db_home"] = dir; Util::global_config["db_suffix"] = ".db"; mkdir((dir + "/x.db").c_str(), 0755); mkdir((dir + "/x.db/kv_store").c_str(), 0755);
		d.reset(new Database("x")); k = d->kvstore; int m = KVstore::CREATE_MODE; k->load_trie(m); k->open_entity2id(m); k->open_id2entity(m); k->open_literal2id(m); k->open_id2literal(m); k->open_predicate2id(m); k->open_id2predicate(m);
		k->open_subID2values(m, 1); k->open_objID2values(m, 1, 1); k->open_preID2values(m, 1);
	}
	~Store() { d.release(); }
	void reopen() { d->saveIDinfo(); d->readIDinfo(); }
};
static string freelist(BlockInfo* b, U limit, const set<U>& used, const char* what) {
	set<U> f; int guard = 0; for (; b; b = b->next) { if (++guard > 100000) return string(what) + ": the list of released identifiers has no end"; if (b->num >= limit) return string(what) + ": a released identifier not below the limit: " + to_string(b->num); if (!f.insert(b->num).second) return string(what) + " identifier released twice: " + to_string(b->num); }
	for (U u : used) { if (u >= limit) return string(what) + " identifier in use not below the limit: " + to_string(u); if (f.count(u)) return string(what) + " identifier both released and in use: " + to_string(u); }
	if (used.size() + f.size() != limit) return string(what) + ": " + to_string(limit) + " identifiers given, " + to_string(used.size()) + " in use, " + to_string(f.size()) + " released"; return "";
}
struct Names { map<string, U> e, l, p; };
// the names in use follow from the triples; every name has one identifier, both directions agree, unused names have none
static string look(Database& d, const Set& m, const vector<T>& all, Names& N) {
	KVstore& k = *d.kvstore; set<string> E, Q, LL; for (auto& t : m) { E.insert(t[0]); Q.insert(t[1]); (t[2][0] == '"' ? LL : E).insert(t[2]); }
	auto dir = [&](const set<string>& S, map<string, U>& old, const char* what, function<U(string)> id, function<string(U)> name, U lo, U hi, set<U>& used) -> string {
		for (auto& s : S) {
			U i = id(s); if (i == U(-1)) return what + string(" ") + s + " has no identifier"; if (i < lo || i >= hi) return what + string(" ") + s + " has identifier " + to_string(i) + " on the wrong side of the boundary";
			if (!used.insert(i - lo).second) return what + string(" ") + s + " shares its identifier " + to_string(i); string b = name(i); if (b != s) return what + string(" identifier ") + to_string(i) + " of " + s + " is the name of '" + b + "'";
			auto o = old.find(s); if (o != old.end() && o->second != i) return what + string(" ") + s + " changed its identifier from " + to_string(o->second) + " to " + to_string(i);
		}
		map<string, U> now; for (auto& s : S) now[s] = id(s); old = now; return "";
	};
	set<U> ue, ul, up; string r = dir(E, N.e, "entity", [&](string s) { return k.getIDByEntity(s); }, [&](U i) { return k.getEntityByID(i); }, 0, L, ue); if (r.size()) return r;
	r = dir(LL, N.l, "literal", [&](string s) { return k.getIDByLiteral(s); }, [&](U i) { return k.getLiteralByID(i); }, L, 2 * L, ul); if (r.size()) return r;
	r = dir(Q, N.p, "predicate", [&](string s) { return (U)k.getIDByPredicate(s); }, [&](U i) { return k.getPredicateByID(i); }, 0, L, up); if (r.size()) return r;
	for (auto& t : all) {
		if (!E.count(t[0]) && k.getIDByEntity(t[0]) != U(-1)) return "entity " + t[0] + " is in no triple but has an identifier";
		if (!Q.count(t[1]) && (U)k.getIDByPredicate(t[1]) != U(-1)) return "predicate " + t[1] + " is in no triple but has an identifier";
		if (t[2][0] == '"' ? !LL.count(t[2]) && k.getIDByLiteral(t[2]) != U(-1) : !E.count(t[2]) && k.getIDByEntity(t[2]) != U(-1)) return "object " + t[2] + " is in no triple but has an identifier";
		bool have = m.count(t); U s = k.getIDByEntity(t[0]), p = k.getIDByPredicate(t[1]), o = t[2][0] == '"' ? k.getIDByLiteral(t[2]) : k.getIDByEntity(t[2]);
		bool got = s != U(-1) && p != U(-1) && o != U(-1) && d.exist_triple(s, p, o); if (got != have) return string(have ? "missing" : "still there") + ": " + t[0] + " " + t[1] + " " + t[2];
	}
	r = freelist(d.freelist_entity, d.limitID_entity, ue, "entity"); if (r.size()) return r; r = freelist(d.freelist_literal, d.limitID_literal, ul, "literal"); if (r.size()) return r; return freelist(d.freelist_predicate, d.limitID_predicate, up, "predicate");
}
static TripleWithObjType mk(const T& t) { return TripleWithObjType(t[0], t[1], t[2], t[2][0] == '"' ? TripleWithObjType::Literal : TripleWithObjType::Entity); }
static T any(Rng& R, int ne, int np, int nl) {
	auto e = [&] { return "<e" + to_string(R.below(ne)) + ">"; }; T t; t[0] = e(); t[1] = "<p" + to_string(R.below(np)) + ">"; t[2] = R.coin(1, 3) ? t[0] : R.coin() ? e() : "\"l" + to_string(R.below(nl)) + "\""; return t;
}
#define LOOK(when) { string e = look(*st.d, m, all, N); CHECK(e.empty(), "%s: %s", when, e.c_str()); }
SUB(histories, 400, 8000) {
	Quiet q; Store st; Set m; Names N; int ne = R.range(1, 5), np = R.range(1, 3), nl = R.range(1, 3); vector<T> all; for (int i = 0; i < 12; i++) all.push_back(any(R, ne, np, nl)); int n = R.range(3, 40), bias = R.range(2, 6);
	for (int i = 0; i < n; i++) {
		auto one = [&](bool ins) { T t = any(R, ne, np, nl); if (!ins && m.size() && R.coin(4, 5)) t = *next(m.begin(), R.below(m.size())); all.push_back(t); note("%s %s %s. ", t[0].c_str(), t[1].c_str(), t[2].c_str()); return t; };
		bool ins = (int)R.below(8) < bias; note(ins ? "+" : "-");
		if (R.coin(2, 3)) { T t = one(ins); bool r = ins ? st.d->insertTriple(mk(t)) : st.d->removeTriple(mk(t)); CHECK(r == (ins != (m.count(t) > 0)), "%s %s %s: the %s reports %d", t[0].c_str(), t[1].c_str(), t[2].c_str(), ins ? "insertion" : "removal", r); if (ins) m.insert(t); else m.erase(t); }
		else {
			int b = R.range(1, 8); note("{"); vector<T> v; for (int j = 0; j < b; j++) v.push_back(one(ins)); note("} "); vector<TripleWithObjType> w; for (auto& t : v) w.push_back(mk(t)); U before = m.size(); for (auto& t : v) if (ins) m.insert(t); else m.erase(t);
			U c = ins ? st.d->batch_insert(w.data(), w.size(), true, nullptr) : st.d->batch_remove(w.data(), w.size(), true, nullptr); CHECK(c == (ins ? m.size() - before : before - m.size()), "the %s of many reports %u, %zu changed", ins ? "insertion" : "removal", c, ins ? m.size() - before : before - m.size());
		}
		LOOK("after the update")
		if (R.below(10) == 0) { note("save. "); st.reopen(); LOOK("after saving and reading again") }
	}
	if (m.size() > 2) nontrivial();
}
SUB(allocators, 4000, 100000) {     // the three allocators alone, also at the end of the range
	Quiet q; static unique_ptr<Database> keep; if (!keep) { string dir = scratch_dir(); Util::global_config["db_home"] = dir; Util::global_config["db_suffix"] = ".db"; mkdir((dir + "/x.db").c_str(), 0755); keep.reset(new Database("x")); } Database& d = *keep;
	d.initIDinfo(); int kind = R.below(3); const char* nm[3] = {"entity", "literal", "predicate"}; U base = kind == 1 ? L : 0, start = R.coin() ? 0 : L - R.range(0, 6); d.limitID_entity = d.limitID_literal = d.limitID_predicate = start; note("%s from %u: ", nm[kind], start);
	set<U> used, freed; int n = R.range(1, 40); BlockInfo** fl = kind == 0 ? &d.freelist_entity : kind == 1 ? &d.freelist_literal : &d.freelist_predicate;
	for (int i = 0; i < n; i++) {
		if (R.coin(2, 3) || used.empty()) {
			U x = kind == 0 ? d.allocEntityID() : kind == 1 ? d.allocLiteralID() : (U)d.allocPredicateID(); note("+%u ", x); U lim = kind == 0 ? d.limitID_entity : kind == 1 ? d.limitID_literal : (U)d.limitID_predicate;
			if (x == U(-1)) { CHECK(freed.empty() && start + used.size() >= L, "refused although identifiers are left"); CHECK(lim == L, "the limit moves to %u on refusal", lim); continue; }
			CHECK(x >= base && x - base < L, "%u lies on the wrong side of the boundary", x); x -= base; CHECK(x >= start && !used.count(x), "%u is in use", x); used.insert(x); freed.erase(x);
		} else { U x = *next(used.begin(), R.below(used.size())); note("-%u ", x + base); if (kind == 0) d.freeEntityID(x); else if (kind == 1) d.freeLiteralID(x + base); else d.freePredicateID(x); used.erase(x); freed.insert(x); }
		if (R.below(12) == 0) { note("save "); d.saveIDinfo(); d.readIDinfo(); }
		set<U> f; int guard = 0; for (BlockInfo* b = *fl; b && guard++ < 1000; b = b->next) f.insert(b->num); U lim = kind == 0 ? d.limitID_entity : kind == 1 ? d.limitID_literal : (U)d.limitID_predicate;
		for (U x : used) CHECK(x < lim && !f.count(x), "%u is in use but free for reuse", x + base); CHECK(lim - start == used.size() + f.size(), "%u identifiers given, %zu in use and %zu free", lim - start, used.size(), f.size());
	}
	nontrivial();
}
SUB(threads, 150, 3000) {     // several threads ask and release
	Quiet q; static unique_ptr<Database> keep; if (!keep) { string dir = scratch_dir(); Util::global_config["db_home"] = dir; Util::global_config["db_suffix"] = ".db"; mkdir((dir + "/x.db").c_str(), 0755); keep.reset(new Database("x")); } Database& d = *keep;
	d.initIDinfo(); int kind = R.below(3), T_ = R.range(2, 6), n = R.range(50, 400); note("kind %d, %d threads, %d steps", kind, T_, n); vector<vector<U>> have(T_); vector<thread> th; vector<U> seed; for (int i = 0; i < T_; i++) seed.push_back(R.next());
	for (int t = 0; t < T_; t++) th.emplace_back([&, t] { U s = seed[t]; for (int i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; auto& h = have[t]; if ((s >> 20) % 5 < 3 || h.empty()) h.push_back(kind == 0 ? d.allocEntityID() : kind == 1 ? d.allocLiteralID() : (U)d.allocPredicateID()); else { U x = h.back(); h.pop_back(); if (kind == 0) d.freeEntityID(x); else if (kind == 1) d.freeLiteralID(x); else d.freePredicateID(x); } } });
	for (auto& t : th) t.join(); set<U> all; for (auto& h : have) for (U x : h) CHECK(all.insert(x).second, "two threads hold identifier %u", x); nontrivial();
}
HARNESS_MAIN
