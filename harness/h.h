// Concrete harness support: named random inputs (recorded), checks, per-run time limit.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <clocale>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

// relative tolerance of CLOSE and NEARP; smaller where the computation is well conditioned
#ifndef H_TOL
#define H_TOL 1e-7
#endif
namespace H {

struct In {
	uint64_t s = 1;
	long run = 0;
	std::string log;
	char* shared = nullptr;
	size_t cap = 0, head = 0;
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	void note(const char* n, double v) {
		char b[96]; snprintf(b, sizeof b, "%s=%.17g ", n, v);
		if (log.size() < 20000) { if (shared && head + log.size() + strlen(b) + 1 < cap) strcpy(shared + head + log.size(), b); log += b; }
	}
	// real in a mix of simple, ordinary and extreme-ish values inside [lo,hi]
	double num(const char* n, double lo = -10, double hi = 10) {
		double v; uint64_t k = next() % 10;
		if (k < 3) v = std::round(lo + unit() * (hi - lo));
		else if (k < 4) v = std::round(2 * (lo + unit() * (hi - lo))) / 2;
		else v = lo + unit() * (hi - lo);
		if (v < lo) v = lo; if (v > hi) v = hi;
		note(n, v); return v;
	}
	double uni(const char* n, double lo, double hi) { double v = lo + unit() * (hi - lo); note(n, v); return v; }
	int i(const char* n, int lo, int hi) { int v = lo + (int)(next() % (uint64_t)(hi - lo + 1)); note(n, v); return v; }
	// small values more likely
	int small(const char* n, int lo, int hi) { double u = unit(); int v = lo + (int)(u * u * (hi - lo + 1)); if (v > hi) v = hi; note(n, v); return v; }
	bool b(const char* n) { bool v = next() & 1; note(n, v); return v; }
	bool one_in(const char* n, int k) { bool v = next() % k == 0; note(n, v); return v; }
};

typedef void (*Fn)(In&);
struct Entry { const char* name; Fn fn; };
inline std::vector<Entry>& reg() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char* n, Fn f) { reg().push_back({ n, f }); } };
inline In*& cur() { static In* p = nullptr; return p; }
inline std::set<std::string>& known() { static std::set<std::string> s; return s; }
inline std::map<std::string, std::string>& known_seen() { static std::map<std::string, std::string> s; return s; }
inline long& skipped() { static long s = 0; return s; }

[[noreturn]] inline void fail(const char* file, int line, const std::string& msg) {
	fflush(stdout);
	printf("@FAIL %s (%s:%d)\n@INPUTS %s\n", msg.c_str(), file, line, cur() ? cur()->log.c_str() : "");
	fflush(stdout); _exit(3);
}
inline void on_alarm(int) {
	static const char m[] = "@FAIL the call did not return within 20 s\n@INPUTS ";
	(void)!write(1, m, sizeof m - 1);
	if (cur()) (void)!write(1, cur()->log.c_str(), std::min<size_t>(cur()->log.size(), 4000));
	(void)!write(1, "\n", 1);
	_exit(4);
}
inline std::string fmt(const char* f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline bool close(double a, double b, double scale = 1, double tol = H_TOL) { return std::fabs(a - b) <= tol * (1 + std::fabs(scale) + std::fabs(a) + std::fabs(b)); }
}
#include <cstdarg>
#define CASE(n) static void n(H::In& in); static H::Reg reg_##n(#n, n); static void n(H::In& in)
#define CHECK(c, ...) do { if (!(c)) H::fail("harness", __LINE__, H::fmt(__VA_ARGS__)); } while (0)
#define SKIP() do { H::skipped()++; return; } while (0)
#define CHECKK(key, c, ...) do { if (!(c)) { if (H::known().count(key)) H::known_seen()[key] = H::fmt(__VA_ARGS__); else H::fail("harness", __LINE__, H::fmt(__VA_ARGS__)); } } while (0)
#define CLOSE(a, b, ...) do { double _a = (a), _b = (b); if (!H::close(_a, _b)) H::fail("harness", __LINE__, H::fmt(__VA_ARGS__) + H::fmt(" (%.12g vs %.12g)", _a, _b)); } while (0)

int main(int argc, char** argv) {
	std::string c, state; uint64_t seed = 1; double tm = 2; long only = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--list") { for (auto& e : H::reg()) printf("%s\n", e.name); return 0; }
		if (a == "--case") c = argv[++i];
		if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
		if (a == "--time") tm = atof(argv[++i]);
		if (a == "--state") state = argv[++i];
		if (a == "--run") only = atol(argv[++i]);
		if (a == "--known") { std::stringstream ss(argv[++i]); std::string k; while (std::getline(ss, k, ',')) H::known().insert(k); }
	}
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	std::setlocale(LC_ALL, "C");
	char* sh = nullptr; size_t cap = 1 << 16;
	if (!state.empty()) {
		int fd = open(state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, cap) == 0) { void* m = mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) sh = (char*)m; }
	}
	signal(SIGALRM, H::on_alarm);
	for (auto& e : H::reg()) {
		if (!c.empty() && c != e.name) continue;
		auto t0 = std::chrono::steady_clock::now();
		long n = 0; std::unordered_set<size_t> seen; int samples = 0;
		for (long r = (only >= 0 ? only : 0); ; r++) {
			if (only < 0 && n >= 20 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tm) break;
			if (n >= 2000000) break;
			H::In in; in.run = r; in.s = seed * 0x100000001b3ULL + (uint64_t)r * 0x9E3779B97F4A7C15ULL;
			in.next();
			if (sh) { memset(sh, 0, 512); in.head = snprintf(sh, 256, "run %ld\n", r); in.shared = sh; in.cap = cap; }
			H::cur() = &in;
			alarm(20);
			long sk = H::skipped();
			e.fn(in);
			alarm(0);
			H::cur() = nullptr;
			n++;
			if (H::skipped() == sk && seen.size() < 1000000) { if (seen.insert(std::hash<std::string>()(in.log)).second && samples < 2) { samples++; printf("@SAMPLE %s\n", in.log.substr(0, 300).c_str()); } }
			if (only >= 0) break;
		}
		printf("@COUNT %ld %zu\n", n, seen.size());
	}
	for (auto& k : H::known_seen()) printf("@KNOWN %s %s\n", k.first.c_str(), k.second.c_str());
	fflush(stdout);
	return 0;
}
