// C08: byte order of strings, search in sorted key arrays, the string -> identifier tree
#include "h.h"
#include "KVstore/SITree/SITree.h"
using namespace std; using namespace H;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref(const string& a, const string& b) { size_t n = min(a.size(), b.size()); int r = n ? memcmp(a.data(), b.data(), n) : 0; return r ? sgn(r) : a.size() < b.size() ? -1 : a.size() > b.size(); }
static string rs(Rng& R, int style, int maxlen) {
	int n = R.range(1, maxlen); string s;
	static const unsigned char few[] = {0, 1, 'a', 'b', 127, 128, 200, 255};
	for (int i = 0; i < n; i++) s += style == 0 ? (char)('a' + R.below(2)) : style == 1 ? (char)few[R.below(8)] : (char)R.below(256);
	return s;
}
static string hex(const string& s) { string o; char b[4]; for (size_t i = 0; i < s.size() && i < 24; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } if (s.size() > 24) o += ".."; return o + ":" + to_string(s.size()); }
struct BS { Bstr b; BS(const string& s) : b(s.data(), s.size()) {} };
SUB(compare, 60000, 2000000) {
	int st = R.range(0, 2), ml = R.pick(vector<int>{2, 4, 9, 40, 300}); string a = rs(R, st, ml), b = rs(R, st, ml), c = rs(R, st, ml);
	if (R.coin(1, 3)) { b = a; if (R.coin()) b += rs(R, st, 4); if (R.coin(1, 3)) b[R.below(b.size())] ^= (char)(1 << R.below(8)); if (R.coin(1, 4)) b.resize(1 + R.below(b.size())); }
	if (R.coin(1, 30)) a = "";
	note("compare %s with %s", hex(a).c_str(), hex(b).c_str());
	// exact-size copies: reading past an end is caught by the sanitizer
	unique_ptr<char[]> x(new char[a.size()]), y(new char[b.size()]); memcpy(x.get(), a.data(), a.size()); memcpy(y.get(), b.data(), b.size());
	int want = ref(a, b), got = Util::compare(x.get(), a.size(), y.get(), b.size());
	CHECK(got == want, "Util::compare gives %d, byte order says %d", got, want);
	CHECK(Util::compare(y.get(), b.size(), x.get(), a.size()) == -want, "comparison is not antisymmetric");
	Bstr p(a.data(), a.size()), q(b.data(), b.size());
	CHECK((p < q) == (want < 0) && (p > q) == (want > 0) && (p == q) == (want == 0) && (p <= q) == (want <= 0) && (p >= q) == (want >= 0) && (p != q) == (want != 0), "a comparison operator of Bstr disagrees with byte order %d: < %d > %d == %d <= %d >= %d != %d", want, p < q, p > q, p == q, p <= q, p >= q, p != q);
	CHECK(p.getLen() == a.size() && !memcmp(p.getStr(), a.data(), a.size()), "Bstr changed its bytes");
	nontrivial();
}
static bool checkNode(SINode& n, const vector<string>& k, const string& s, const char** what) {
	int up = upper_bound(k.begin(), k.end(), s, [](const string& a, const string& b) { return ref(a, b) < 0; }) - k.begin();
	int eq = up > 0 && k[up - 1] == s ? up - 1 : (int)k.size(), le = up > 0 && k[up - 1] == s ? up - 1 : up;
	Bstr b(s.data(), s.size());
	*what = "searchKey_less(str)"; if (n.searchKey_less(s.data(), s.size()) != up) return false;
	*what = "searchKey_less(Bstr)"; if (n.searchKey_less(b) != up) return false;
	*what = "searchKey_equal(str)"; if (n.searchKey_equal(s.data(), s.size()) != eq) return false;
	*what = "searchKey_equal(Bstr)"; if (n.searchKey_equal(b) != eq) return false;
	*what = "searchKey_lessEqual(str)"; if (n.searchKey_lessEqual(s.data(), s.size()) != le) return false;
	*what = "searchKey_lessEqual(Bstr)"; if (n.searchKey_lessEqual(b) != le) return false;
	return true;
}
SUB(node, 3000, 60000) {
	SILeafNode n; vector<string> k; vector<unsigned> v; int st = R.range(0, 2), ml = R.pick(vector<int>{2, 5, 12}); int ops = R.range(1, 160); const char* what = "";
	auto less = [](const string& a, const string& b) { return ref(a, b) < 0; };
	for (int o = 0; o < ops; o++) {
		string s = k.size() && R.coin(1, 4) ? k[R.below(k.size())] : rs(R, st, ml);
		CHECK(checkNode(n, k, s, &what), "%s finds the wrong position for %s among %zu keys", what, hex(s).c_str(), k.size());
		int up = upper_bound(k.begin(), k.end(), s, less) - k.begin(); bool have = up > 0 && k[up - 1] == s;
		if (!have && k.size() < SINode::MAX_KEY_NUM && R.coin(3, 4)) {
			unsigned val = R.next(); note("+%s=%u ", hex(s).c_str(), val);
			char* c = new char[s.size()]; memcpy(c, s.data(), s.size()); CHECK(n.addKey(c, s.size(), up, true) && n.AddValue(val, up) && n.AddKeyNum(), "adding to a node with room fails");
			k.insert(k.begin() + up, s); v.insert(v.begin() + up, val);
		} else if (k.size()) {
			int i = R.below(k.size()); note("-#%d ", i); CHECK(n.subKey(i, true) && n.SubValue(i) && n.SubKeyNum(), "removing from a node fails"); k.erase(k.begin() + i); v.erase(v.begin() + i);
			if (k.size() && R.coin(1, 3)) { int j = R.below(k.size()); unsigned val = R.next(); CHECK(n.SetValue(val, j), "changing a value fails"); v[j] = val; }
		}
		CHECK(n.GetKeyNum() == k.size(), "key count %u instead of %zu", n.GetKeyNum(), k.size());
		for (size_t i = 0; i < k.size(); i++) { auto* b = n.getKey(i); CHECK(b && string(b->getStr(), b->getLen()) == k[i] && n.GetValue(i) == v[i], "entry %zu of %zu is not what was stored", i, k.size()); }
	}
	for (size_t i = 0; i < k.size(); i++) n.keys[i].release();
	nontrivial();
}
static void history(Rng& R, long K, int ops, int keyspace, unsigned long long buf, bool reopen) {
	string dir = scratch_dir(), fn = "t" + to_string(K); map<string, unsigned> m; vector<string> pool; int st = R.range(0, 2), ml = R.pick(vector<int>{3, 8, 30, 120});
	for (int i = 0; i < keyspace; i++) pool.push_back(rs(R, st, i % 50 == 7 ? ml * 20 : ml)); sort(pool.begin(), pool.end()); pool.erase(unique(pool.begin(), pool.end()), pool.end());
	int order = R.range(0, 3); note("history of %d operations on %zu keys, order %d, buffer %llu, reopen %d; ", ops, pool.size(), order, buf, reopen);
	SITree* t = new SITree(dir, fn, "build", buf); int growth = 0;
	auto look = [&](const string& s) { unsigned got = 0xabcdef; bool f = t->Search(s.data(), s.size(), &got); auto it = m.find(s); return f == (it != m.end()) && (!f || got == it->second); };
	int phase = 0;
	for (int o = 0; o < ops; o++) {
		if (o % (ops / 4 + 1) == 0) phase = o == 0 ? 0 : R.range(0, 2);
		size_t pos = order == 0 ? o % pool.size() : order == 1 ? pool.size() - 1 - o % pool.size() : order == 2 ? R.below(pool.size()) : (o * 7919ull) % pool.size();
		const string& s = pool[pos]; int what = R.range(0, 9); bool have = m.count(s);
		bool ins = phase == 0 ? what < 9 : phase == 1 ? what < 1 : what < 5, del = !ins && (phase == 0 ? what < 9 : what < 9);
		if (ins) { unsigned v = R.next(); char* c = new char[s.size()]; memcpy(c, s.data(), s.size()); bool r = t->Insert(c, s.size(), v); if (have) delete[] c; CHECK(r == !have, "operation %d: inserting %s %s", o, hex(s).c_str(), r ? "a second time succeeds" : "fails"); if (!have) m[s] = v; growth++; }
		else if (del) { bool r = t->Remove(s.data(), s.size()); CHECK(r == have, "operation %d: removing %s reports %d", o, hex(s).c_str(), r); m.erase(s); }
		else { unsigned v = R.next(); bool r = t->Modify(s.data(), s.size(), v); CHECK(r == have, "operation %d: changing %s reports %d", o, hex(s).c_str(), r); if (have) m[s] = v; }
		CHECK(look(s), "operation %d (%s): wrong answer for the key just touched %s", o, ins ? "insert" : del ? "remove" : "modify", hex(s).c_str());
		if (o % 16 == 0) { const string& q = pool[R.below(pool.size())]; CHECK(look(q), "operation %d: wrong answer for %s", o, hex(q).c_str()); string z = q + "~"; CHECK(look(z), "operation %d: wrong answer for an absent key", o); }
		if (reopen && R.coin(3, ops)) { note("reopen@%d ", o); CHECK(t->Save(), "save fails"); if (R.coin(3, 4)) { delete t; t = new SITree(dir, fn, "open", buf); } for (auto& q : pool) CHECK(look(q), "operation %d: after saving%s: wrong answer for %s", o, " and opening", hex(q).c_str()); }
	}
	for (auto& q : pool) CHECK(look(q), "at the end: wrong answer for %s", hex(q).c_str());
	// the leaves in order hold exactly the map
	if (!m.empty()) { SINode* l = t->leaves_head_; auto ref_less = [](const string& a, const string& b) { return ref(a, b) < 0; }; map<string, unsigned, decltype(ref_less)> w(m.begin(), m.end(), ref_less); auto it = w.begin(); size_t cnt = 0;
		for (; l; l = l->GetNext()) { t->Prepare(l); for (unsigned i = 0; i < l->GetKeyNum(); i++, ++it, ++cnt) { auto* b = l->getKey(i); CHECK(it != w.end() && string(b->getStr(), b->getLen()) == it->first && l->GetValue(i) == it->second, "leaf chain: entry %zu is not the %zu-th key in byte order", cnt, cnt); } }
		CHECK(it == w.end(), "leaf chain ends after %zu of %zu keys", cnt, w.size()); }
	delete t; unlink((dir + "/" + fn).c_str()); nontrivial();
}
SUB(tree, 400, 6000) { bool big = K % 8 == 3; history(R, K, big ? 9000 : R.range(50, 1500), big ? 5000 : R.pick(vector<int>{10, 130, 400, 900}), 64ull << 20, false); }
SUB(treefile, 300, 5000) { bool big = K % 8 == 3; history(R, K, big ? 9000 : R.range(50, 1500), big ? 5000 : R.pick(vector<int>{10, 130, 400, 900}), 64ull << 20, true); }
SUB(deep, 24, 400) { history(R, K, 48000, R.pick(vector<int>{12000, 20000}), 256ull << 20, K % 3 == 2); }
SUB(evict, 400, 4000) { history(R, K, R.range(300, 3000), R.pick(vector<int>{400, 1500, 3000}), R.pick(vector<int>{40, 80, 200, 1000}) * 1024ull, K % 2); }
HARNESS_MAIN
