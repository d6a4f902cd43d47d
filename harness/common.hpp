// Shared by all drivers: deterministic randomness, JSON output, crash capture.
#pragma once
#include <libloong/machine.hpp>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
using namespace loongarch;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	// 64-bit operand values weighted towards the ones where arithmetic is special
	u64 word() {
		static const std::vector<u64> sp = {0,1,2,3,7,8,31,32,33,63,64,65,127,128,255,256,0x7FF,0x800,0xFFF,0x7FFF,0x8000,0xFFFF,0x10000,
			0x7FFFFFFF,0x80000000ull,0xFFFFFFFFull,0x100000000ull,0x7FFFFFFFFFFFFFFFull,0x8000000000000000ull,~0ull,~1ull,~0ull-126,
			0xFFFFFFFF80000000ull,0xFFFFFFFF7FFFFFFFull,0x00000000FFFF0000ull,0x0123456789ABCDEFull,0xFEDCBA9876543210ull,0x5555555555555555ull,0xAAAAAAAAAAAAAAAAull};
		switch (below(8)) {
		case 0: case 1: case 2: return pick(sp);
		case 3: return 1ull << below(64);
		case 4: return (1ull << below(64)) - 1;
		case 5: return ~((1ull << below(64)) - 1);
		case 6: return next() >> below(64);
		default: return next();
		}
	}
	u64 fword() { // floating-point bit patterns (double, and single in the low half)
		static const std::vector<u64> d = {0,0x8000000000000000ull,0x3FF0000000000000ull,0xBFF0000000000000ull,0x7FF0000000000000ull,0xFFF0000000000000ull,
			0x7FF8000000000000ull,0xFFF8000000000000ull,0x7FF0000000000001ull,0xFFF0000000000001ull,1,0x8000000000000001ull,0x000FFFFFFFFFFFFFull,
			0x0010000000000000ull,0x7FEFFFFFFFFFFFFFull,0xFFEFFFFFFFFFFFFFull,0x4000000000000000ull,0x3FF0000000000001ull,0x7FFFFFFFFFFFFFFFull};
		static const std::vector<u32> f = {0,0x80000000,0x3F800000,0xBF800000,0x7F800000,0xFF800000,0x7FC00000,0xFFC00000,0x7F800001,0xFF800001,1,0x80000001,
			0x007FFFFF,0x00800000,0x7F7FFFFF,0xFF7FFFFF,0x40000000,0x3F800001,0x7FFFFFFF};
		switch (below(4)) {
		case 0: return pick(d);
		case 1: return pick(f);
		case 2: return (next() & 0xFFFFFFFF00000000ull) | pick(f);
		default: return next();
		}
	}
};

struct Out { // a growing JSON text
	std::string s; bool first = true;
	void raw(const std::string& t) { s += t; }
	void sep() { if (!first) s += ','; first = false; }
	void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; first = true; }
	void num(i64 v) { sep(); s += std::to_string(v); }
	void str(const std::string& v) { sep(); s += '"'; for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) s += ' '; else s += c; } s += '"'; }
	void bytes(u64 v) { sep(); s += '['; for (int i = 0; i < 8; i++) { if (i) s += ','; s += std::to_string((v >> (8 * i)) & 255); } s += ']'; first = false; }
	void arr() { sep(); s += '['; first = true; }
	void end() { s += ']'; first = false; }
	void obj() { sep(); s += '{'; first = true; }
	void eobj() { s += '}'; first = false; }
	void knum(const char* k, i64 v) { key(k); num(v); first = false; }
	void kstr(const char* k, const std::string& v) { key(k); str(v); first = false; }
	void kbytes(const char* k, u64 v) { key(k); bytes(v); first = false; }
	void karr(const char* k) { key(k); first = true; arr(); }
	void kbool(const char* k, bool b) { key(k); s += b ? "true" : "false"; first = false; }
};

inline FILE* g_out = nullptr;
inline int g_msg_fd = 1;       // where the driver speaks to its check (differs when standard output is captured)
inline std::string g_now;      // description of the operation under way, written when the process dies in it
inline void emit(const Out& o) { fwrite(o.s.data(), 1, o.s.size(), g_out); fputc('\n', g_out); }
inline void on_death() {
	if (g_out) { fflush(g_out); }
	std::string t = "DIED " + g_now + "\n";
	(void)!write(g_msg_fd, t.data(), t.size());
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
inline sigjmp_buf g_trap; inline volatile sig_atomic_t g_trap_armed = 0; inline volatile int g_trap_sig = 0;
inline void trap_handler(int sig) {
	if (g_trap_armed) { g_trap_armed = 0; g_trap_sig = sig; siglongjmp(g_trap, 1); }
	on_death(); signal(sig, SIG_DFL); raise(sig);
}
inline void common_init(const char* out) {
	g_out = out && *out ? fopen(out, "w") : stdout;
	if (!g_out) { perror("output"); exit(3); }
	if (__asan_set_death_callback) __asan_set_death_callback(on_death);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = trap_handler; sa.sa_flags = SA_NODEFER;
	sigaction(SIGFPE, &sa, nullptr);
	if (!__asan_set_death_callback) { sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); }
	sigaction(SIGABRT, &sa, nullptr); sigaction(SIGALRM, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
}
// SIGFPE raised by the library becomes a result instead of the end of the process
#define WITH_TRAP(body, ontrap) do { g_trap_armed = 1; if (sigsetjmp(g_trap, 1) == 0) { body; g_trap_armed = 0; } else { ontrap; } } while (0)

inline const char* exname(int t) {
	switch (t) {
	case ILLEGAL_OPCODE: case ILLEGAL_OPERATION: case UNIMPLEMENTED_INSTRUCTION: return "ill";
	case PROTECTION_FAULT: return "prot";
	case EXECUTION_SPACE_PROTECTION_FAULT: return "exec";
	case MISALIGNED_INSTRUCTION: return "misaligned";
	case MACHINE_TIMEOUT: return "timeout";
	case OUT_OF_MEMORY: return "oom";
	case INVALID_PROGRAM: return "invalid";
	case FEATURE_DISABLED: return "disabled";
	case UNIMPLEMENTED_SYSCALL: return "nosys";
	case GUEST_ABORT: return "abort";
	}
	return "otherexc";
}
inline const char* arg(int argc, char** argv, const char* name, const char* dflt) {
	size_t n = strlen(name);
	for (int i = 1; i < argc; i++) if (!strncmp(argv[i], name, n) && argv[i][n] == '=') return argv[i] + n + 1;
	return dflt;
}
inline u64 argn(int argc, char** argv, const char* name, u64 dflt) { const char* s = arg(argc, argv, name, nullptr); return s ? strtoull(s, nullptr, 0) : dflt; }
