// C03: the blocks of a value file, over histories of storing, reading, releasing, saving and opening again
#include "h.h"
#include <fstream>
#include <mutex>
#define private public
#include "KVstore/IVArray/IVBlockManager.h"
#include "KVstore/ISArray/ISBlockManager.h"
#undef private
using namespace std; using namespace H;
#define CHECK2(c, ...) do { if (!(c)) { H::fail(__VA_ARGS__); return false; } } while (0)
template <class M, class LEN> struct Run {
	string path; M* m; unsigned D; struct Val { string s; vector<unsigned> blocks; }; map<unsigned, Val> vals; string why;
	static string bytes(unsigned seed, size_t n) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)((seed * 2654435761u + i * 40503u) >> 7); return s; }
	void open(const char* how) { string md = how; m = new M(path, md, 0); }
	// the blocks of a value, found in the file the way a reader finds them
	vector<unsigned> chain(unsigned b, size_t most) { vector<unsigned> r; while (b && r.size() <= most) { r.push_back(b); unsigned nx = 0; if (pread(fileno(m->ValueFile), &nx, 4, (off_t)M::BLOCK_SIZE * (b - 1)) != 4) nx = 0; b = nx; } return r; }
	bool book() {      // free runs and blocks in use: every block of the file is exactly one of the two
		vector<char> st(m->cur_block_num + 1, 0); set<pair<unsigned, unsigned>> o; char t[200];
		for (auto& e : m->index_len_map) {
			if (!e.first || !e.second || (unsigned long)e.first + e.second > (unsigned long)m->cur_block_num + 1) { snprintf(t, 200, "free run of %u blocks at %u, the file has %u", e.second, e.first, m->cur_block_num); why = t; return false; }
			for (unsigned i = 0; i < e.second; i++) { if (st[e.first + i]) { snprintf(t, 200, "block %u is in two free runs", e.first + i); why = t; return false; } st[e.first + i] = 1; }
			o.insert({e.second, e.first});
		}
		if (o != set<pair<unsigned, unsigned>>(m->len_index_map.begin(), m->len_index_map.end())) { why = "the two indexes of free runs disagree"; return false; }
		for (auto& v : vals) for (unsigned b : v.second.blocks) {
			if (!b || b > m->cur_block_num) { why = "a block outside the file"; return false; }
			if (st[b]) { snprintf(t, 200, "block %u of the value at %u is %s", b, v.first, st[b] == 1 ? "free" : "another value's too"); why = t; return false; }
			st[b] = 2;
		}
		for (unsigned b = 1; b <= m->cur_block_num; b++) if (!st[b]) { snprintf(t, 200, "block %u is neither free nor in use", b); why = t; return false; }
		return true;
	}
	bool reads(unsigned b, const string& want) {
		char* s = nullptr; LEN n = 0; if (!m->ReadValue(b, s, n)) { why = "a stored value is not found"; return false; }
		bool ok = n == want.size() && !memcmp(s, want.data(), n); delete[] s; if (!ok) why = "the value at " + to_string(b) + " (" + to_string(want.size()) + " bytes) does not read back as it was stored"; return ok;
	}
	bool put(size_t n, unsigned seed) {
		string s = bytes(seed, n); unique_ptr<char[]> p(new char[n]); memcpy(p.get(), s.data(), n); unsigned before = m->cur_block_num; size_t need = max<size_t>(1, (n + D - 1) / D); bool fits = m->len_index_map.lower_bound(make_pair((unsigned)need, 0u)) != m->len_index_map.end();
		unsigned b = m->WriteValue(p.get(), n); if (!b) { why = "storing a value is refused"; return false; }
		if (vals.count(b)) { why = "a value was stored where another one begins"; return false; }
		vals[b] = {s, chain(b, need + 3)}; if (vals[b].blocks.size() != need) { why = "a value of " + to_string(n) + " bytes takes " + to_string(vals[b].blocks.size()) + " blocks"; return false; }
		if (fits && m->cur_block_num != before) { why = "the file grew although free blocks would have done"; return false; }
		return true;
	}
};
template <class M, class LEN> static bool history(Rng& R, long K, const char* kind) {
	Run<M, LEN> r; r.D = M::BLOCK_DATA_SIZE; r.path = scratch_dir() + "/" + kind + to_string(K); r.open("build"); int ops = R.range(5, 70), big = R.pick(vector<int>{1, 3, 12, 90, 300}), full = R.range(1, 8); char* none = (char*)1; LEN nl = 7;
	struct Gone { Run<M, LEN>& r; ~Gone() { delete r.m; for (auto x : {"_ValueFile", "_FreeBlockList"}) unlink((r.path + x).c_str()); } } gone{r};
	CHECK2(!r.m->ReadValue(0, none, nl) && !none && !nl, "block 0 holds a value"); CHECK2(r.m->FreeBlocks(0) && r.book(), "releasing nothing: %s", r.why.c_str());
	for (int o = 0; o < ops; o++) {
		int w = R.range(0, 9); bool ok = true;
		if (w < 5 || r.vals.empty()) { size_t blocks = R.range(0, R.coin(1, 3) ? big : min(big, 4)), n = blocks * r.D; int e = R.range(0, 4); if (e == 0) n += R.below(r.D); else if (e == 1) n++; else if (e == 2 && n) n--; if (sizeof(LEN) == 4 && n > 3000000000u) n = 0; note("+%zu ", n); ok = r.put(n, R.next()); }
		else if (w < 9) { auto it = r.vals.begin(); advance(it, R.below(r.vals.size())); note("-%u(%zu) ", it->first, it->second.s.size()); unsigned b = it->first; ok = r.reads(b, it->second.s) && r.m->FreeBlocks(b); r.vals.erase(b); }
		else { note("reopen "); r.m->SaveFreeBlockList(); if (R.coin(3, 4)) { unsigned c = r.m->cur_block_num; auto a = r.m->index_len_map; delete r.m; r.open("open"); if (r.m->cur_block_num != c || r.m->index_len_map != a) { ok = false; r.why = "the free runs read back are not those saved"; } } }
		CHECK2(ok, "operation %d: %s", o, r.why.c_str()); CHECK2(r.book(), "operation %d: %s", o, r.why.c_str());
		if (o % full == 0 || o == ops - 1) for (auto& v : r.vals) CHECK2(r.reads(v.first, v.second.s), "operation %d: %s", o, r.why.c_str());
	}
	return true;
}
SUB(identifier_values, 250, 6000) { if (history<IVBlockManager, unsigned long>(R, K, "iv")) nontrivial(); }
SUB(string_values, 250, 6000) { if (history<ISBlockManager, unsigned>(R, K, "is")) nontrivial(); }
HARNESS_MAIN
