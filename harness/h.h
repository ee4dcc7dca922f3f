// Replay / bounded harness for the real code of /repo.  One binary per property; each SUB runs in its own process.
// A case is a function of (seed, sub, case number) only, so "--case K" replays it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <memory>
#include <iostream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace H {
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
	uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool coin(int num = 1, int den = 2) { return (int)below(den) < num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
static char g_ctx[1 << 16]; static size_t g_len = 0;
static const char* g_sub = ""; static long g_case = 0, g_cases = 0, g_nontrivial = 0, g_fails = 0; static uint64_t g_seed = 1;
static const char* g_replay = nullptr; static volatile long g_tick = 0;
static std::set<uint64_t> g_distinct;
static int g_tier = 0; static double g_secs = 20; static char g_sample[2048]; static FILE* g_out = nullptr;
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...) {      // append to the description of the current case
	va_list a; va_start(a, fmt);
	if (g_len + 256 < sizeof g_ctx) { int n = vsnprintf(g_ctx + g_len, sizeof g_ctx - g_len, fmt, a); if (n > 0) g_len = std::min(sizeof g_ctx - 1, g_len + (size_t)n); }
	va_end(a);
}
inline void note_reset() { g_len = 0; g_ctx[0] = 0; }
template <class V> inline std::string show(const V& v, size_t max = 40) {
	std::ostringstream o; o << "["; size_t i = 0;
	for (auto& x : v) { if (i) o << ","; if (i++ >= max) { o << "..."; break; } o << x; }
	o << "]"; return o.str();
}
inline std::string show_arr(const unsigned* p, size_t n, size_t max = 40) { return show(std::vector<unsigned>(p, p + n), max); }
inline void hash_case(uint64_t h) { if (g_distinct.size() < 2000000) g_distinct.insert(h); }
inline uint64_t hstr(const char* s, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; } return h; }
inline void raw(int fd, const char* s) { ssize_t r = write(fd, s, strlen(s)); (void)r; }
inline void emit(const char* kind, const char* msg) {
	static char buf[1 << 17];
	int n = snprintf(buf, sizeof buf, "\nHARNESS-%s sub=%s case=%ld seed=%llu\nmessage: %s\ninput: %s\nHARNESS-END\n", kind, g_sub, g_case, (unsigned long long)g_seed, msg, g_ctx);
	if (g_out) { ssize_t r = write(fileno(g_out), buf, n > (int)sizeof buf ? sizeof buf - 1 : n); (void)r; }
	else { ssize_t r = write(2, buf, n > (int)sizeof buf ? sizeof buf - 1 : n); (void)r; }
}
inline bool fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline bool fail(const char* fmt, ...) {
	static char m[8192]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	emit("FAIL", m); g_fails++;
	if (g_fails >= 8) _exit(7);
	return false;
}
static bool g_done = false;
inline void on_death() { if (!g_done) { g_done = true; emit("CRASH", "memory error reported by AddressSanitizer (see the log)"); } }
inline void on_signal(int s) {
	if (!g_done) { g_done = true;
		if (s == SIGPROF || s == SIGALRM) emit("HANG", "the call does not return (time limit for one case exceeded)");
		else { char b[64]; snprintf(b, sizeof b, "killed by signal %d", s); emit("CRASH", b); } }
	_exit(9);
}
static double g_case_secs = 20;
inline void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)g_case_secs; t.it_value.tv_usec = (long)((g_case_secs - (long)g_case_secs) * 1e6); setitimer(ITIMER_PROF, &t, nullptr); }
struct Sub { const char* name; std::function<void(Rng&, long)> fn; long quick, thorough; };
inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(const char* n, std::function<void(Rng&, long)> f, long q, long t) { subs().push_back({n, f, q, t}); } };
inline void nontrivial() { g_nontrivial++; hash_case(hstr(g_ctx, g_len)); if (!g_sample[0] || (g_nontrivial == 37)) { snprintf(g_sample, sizeof g_sample, "%.1800s", g_ctx); for (char* p = g_sample; *p; p++) if (*p == '\n') *p = ' '; } }
// a scratch directory of the process, removed at exit
inline std::string& scratch() { static std::string d; return d; }
inline const std::string& scratch_dir() {
	if (scratch().empty()) { const char* b = getenv("HARNESS_TMP"); std::string t = std::string(b ? b : "/tmp") + "/gsh.XXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0); if (!mkdtemp(v.data())) _exit(8); scratch() = v.data(); }
	return scratch();
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ULL + b); return r.next(); }
inline int main_(int argc, char** argv) {
	const char* sub = nullptr; long only = -1; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--list") list = true;
		else if (i + 1 < argc && a == "--sub") sub = argv[++i];
		else if (i + 1 < argc && a == "--seed") g_seed = strtoull(argv[++i], 0, 10);
		else if (i + 1 < argc && a == "--tier") g_tier = !strcmp(argv[++i], "thorough");
		else if (i + 1 < argc && a == "--secs") g_secs = atof(argv[++i]);
		else if (i + 1 < argc && a == "--case") only = atol(argv[++i]);
		else if (i + 1 < argc && a == "--out") g_out = fopen(argv[++i], "a");
	}
	if (list) { for (auto& s : subs()) printf("%s\n", s.name); return 0; }
	for (auto& s : subs()) if (sub && !strcmp(s.name, sub)) {
		g_sub = s.name;
		int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM};
		static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
		for (int x : sg) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(x, &sa, nullptr); }
#if defined(__SANITIZE_ADDRESS__)
		__sanitizer_set_death_callback(on_death);
#endif
		long n = g_tier ? s.thorough : s.quick; double t0 = now();
		uint64_t h = mix(g_seed, hstr(s.name, strlen(s.name)));
		for (long k = 0; k < n; k++) {
			if (only >= 0) k = only;
			if (k > 0 && only < 0 && now() - t0 > g_secs) break;
			g_case = k; note_reset(); Rng r(mix(h, (uint64_t)k)); arm();
			try { s.fn(r, k); }
			catch (std::exception& e) { fail("uncaught exception: %s", e.what()); }
			catch (...) { fail("uncaught exception"); }
			g_cases++; g_tick++;
			if (only >= 0) break;
		}
		g_done = true;
		char b[4096]; snprintf(b, sizeof b, "\nHARNESS-STATS sub=%s cases=%ld nontrivial=%ld distinct=%zu fails=%ld planned=%ld\nsample: %s\nHARNESS-END\n", s.name, g_cases, g_nontrivial, g_distinct.size(), g_fails, n, g_sample);
		if (g_out) { fputs(b, g_out); fflush(g_out); } else fputs(b, stderr);
		_exit(g_fails ? 7 : 0);
	}
	fprintf(stderr, "no such sub\n"); return 3;
}
}
#define SUB(name, quick, thorough) static void sub_##name(H::Rng& R, long K); static H::Reg reg_##name(#name, sub_##name, quick, thorough); static void sub_##name(H::Rng& R, long K)
#define CHECK(c, ...) do { if (!(c)) { H::fail(__VA_ARGS__); return; } } while (0)
#define HARNESS_MAIN int main(int argc, char** argv) { return H::main_(argc, argv); }
