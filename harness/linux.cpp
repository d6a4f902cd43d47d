// Real guest system calls against the Linux emulation on machines with very small arenas;
// judged by spec/LinuxTrace.tla.
#include "common.hpp"
#include <libloong/posix/threads.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
static const u64 CODE = 0x100000; static const u32 SYSCALL = 0x002B0000, STOPW = 0x00150000;
static u64 SZ, RO, RW; static std::unique_ptr<Machine> M; static std::vector<u8> shadow; static u64 g_ops = 0; static bool threads = false;
static int cap_fd, scratch_fd; static off_t scratch_size; static std::string scratch;
static u8* A() { return (u8*)M->memory.arena_ptr(); }
static size_t page_end() { return (SZ + 64 + 4095) & ~4095ull; }
static std::vector<u32> code(64, STOPW);
static void new_arena(Rng& g) {
	SZ = 420 + g.below(300); RO = g.chance(1, 6) ? 1 : g.below(60) + 1; RW = RO + g.below(60); g_now = "new arena";
	auto opts = std::make_shared<MachineOptions>(); M = std::make_unique<Machine>(std::string_view{}, *opts); M->set_options(opts);
	M->memory.allocate_custom_arena(SZ, RO, RW);
	code[0] = SYSCALL; M->cpu.init_execute_area(code.data(), CODE, code.size() * 4);
	M->setup_linux_syscalls(); if (threads) M->setup_posix_threads();
	for (u64 i = 0; i < SZ + 64; i++) A()[i] = g.chance(1, 6) ? 0 : (u8)g.next();
	memset(A() + SZ + 64, 0xA5, page_end() - SZ - 64);
	shadow.assign(A(), A() + page_end());
	Out o; o.obj(); o.kstr("e", "arena"); o.knum("size", SZ); o.knum("ro", RO); o.knum("rw", RW); o.knum("tid", M->gettid()); o.karr("mem"); for (u64 i = 0; i < SZ + 64; i++) o.num(shadow[i]); o.end(); o.eobj(); emit(o);
}
static void poke(u64 at, const std::vector<u8>& d) {
	memcpy(A() + at, d.data(), d.size()); memcpy(shadow.data() + at, d.data(), d.size());
	Out o; o.obj(); o.kstr("e", "poke"); o.knum("at", at); o.karr("data"); for (u8 x : d) o.num(x); o.end(); o.eobj(); emit(o);
}
static void w64(std::vector<u8>& v, u64 x) { for (int i = 0; i < 8; i++) v.push_back(x >> (8 * i)); }
static int open_fds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static std::vector<u8> captured() {
	fflush(stdout); fflush(stderr); off_t n = lseek(cap_fd, 0, SEEK_END); std::vector<u8> v(n);
	if (n) { (void)!pread(cap_fd, v.data(), n, 0); (void)!ftruncate(cap_fd, 0); lseek(cap_fd, 0, SEEK_SET); } return v;
}
static std::string call(u64 num, const u64* a, Rng& g) {
	char b[256]; snprintf(b, sizeof b, "syscall %llu(0x%llx,0x%llx,0x%llx,0x%llx) arena %llu/%llu/%llu", (long long)num, (long long)a[0], (long long)a[1], (long long)a[2], (long long)a[3], (long long)RO, (long long)RW, (long long)SZ); g_now = b;
	auto& R = M->cpu.registers(); u64 before[32];
	for (int i = 1; i < 32; i++) R.get(i) = g.below(1000000) * 8; // the stack pointer is aligned
	for (int i = 0; i < 6; i++) R.get(4 + i) = a[i];
	R.get(11) = num; for (int i = 0; i < 32; i++) before[i] = R.get(i);
	M->cpu.jump(CODE); std::string out = "ok"; int fds = open_fds(); u64 t0 = 0, t1 = 0; bool timed = false;
	auto now = [&]() -> u64 { struct timespec ts; if (num == 169 || (num == 113 && (int)a[0] == 0)) { clock_gettime(CLOCK_REALTIME, &ts); timed = true; } else if (num == 113 && (int)a[0] == 1) { clock_gettime(CLOCK_MONOTONIC, &ts); timed = true; } else return 0; return ts.tv_sec; };
	t0 = now();
	try { if (!M->simulate(1000, 0)) out = "limit"; } catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = std::string("exception: ") + e.what(); }
	t1 = now(); if ((num == 113 && !a[1]) || (num == 169 && !a[0])) timed = false;
	auto printed = captured(); g_ops++;
	struct stat st; fstat(scratch_fd, &st); bool leak = st.st_size != scratch_size || lseek(scratch_fd, 0, SEEK_CUR) != 0; if (leak) { lseek(scratch_fd, 0, SEEK_SET); (void)!ftruncate(scratch_fd, scratch_size); }
	Out o; o.obj(); o.kstr("e", "call"); o.knum("num", num < 100000 ? (i64)num : 99999); o.karr("args"); for (int i = 0; i < 6; i++) o.bytes(a[i]); o.end();
	o.kstr("out", out); o.kbytes("ret", R.get(4)); o.kbytes("pc", R.pc); o.kbytes("sp", before[3]); o.kbytes("sp2", R.get(3));
	int regs = 0; for (int i = 0; i < 32; i++) if (i != 3 && i != 4 && R.get(i) != before[i]) regs++; o.knum("regs", regs);
	o.karr("print"); for (u8 x : printed) o.num(x); o.end(); o.knum("fds", open_fds() - fds); o.knum("leak", leak);
	o.knum("timed", timed); o.kbytes("t0", t0); o.kbytes("t1", t1);
	o.karr("d"); i64 stray = 0; size_t end = page_end();
	if (memcmp(A(), shadow.data(), end)) for (size_t i = 0; i < end; i++) if (A()[i] != shadow[i]) { if (i < SZ + 64) { o.arr(); o.num(i + 1); o.num(A()[i]); o.end(); shadow[i] = A()[i]; } else { stray++; A()[i] = shadow[i]; } }
	o.end(); o.knum("stray", stray); o.eobj(); emit(o);
	return out;
}
static const std::vector<u64> wild = {0, ~0ull, ~0ull - 7, ~0ull - 15, ~0ull - 63, 1ull << 63, 1ull << 32, (1ull << 32) - 8, 1ull << 31, 4096, 1ull << 47, 1ull << 40};
static u64 buf(Rng& g, u64 need) { // an address for a buffer of that many bytes
	switch (g.below(10)) {
	case 0: return g.pick(wild);
	case 1: return SZ - need + g.below(4);
	case 2: return SZ - g.below(need + 9);
	case 3: return RW - g.below(need + 2);
	case 4: return g.chance(1, 2) ? RO + g.below(4) - 2 : 0;
	default: return RW + g.below(SZ - RW - (need < SZ - RW ? need : 0));
	}
}
static u64 len(Rng& g, u64 a) {
	switch (g.below(10)) {
	case 0: { static const std::vector<u64> w = {~0ull, 1ull << 63, 1ull << 32, (1ull << 32) + 4, 1ull << 31, 0x7FFFFFFF, 1ull << 20, (1ull << 20) - 1, 65536}; return g.pick(w); }
	case 1: return 0 - a + g.below(8);
	case 2: return a < SZ ? SZ - a + g.below(3) - 1 : 1;
	case 3: return 0;
	default: return g.below(60);
	}
}
static u64 fdarg(Rng& g) { static const std::vector<u64> w = {0, 1, 2, 1, 2, 3, 4, 5, 0xFFFFFFFFull, ~0ull, 0x100000001ull, 0x100000005ull, 1ull << 31, 100}; return g.chance(1, 5) ? (u64)scratch_fd : g.pick(w); }
static u64 sigarg(Rng& g) { static const std::vector<u64> w = {0, 1, 2, 6, 6, 31, 32, 33, 63, 64, 65, 66, 128, 0xFFFFFFFFull, ~0ull, 0x10000000Aull, 1ull << 31}; return g.chance(1, 3) ? g.pick(w) : 1 + g.below(64); }
static u64 handler(Rng& g) { switch (g.below(8)) { case 0: return 0; case 1: return 1; case 2: return CODE + 4 + 4 * g.below(60) + g.below(4); case 3: return g.next(); default: return CODE + 4 + 4 * g.below(60); } }

int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 30), per = argn(argc, argv, "per", 150);
	std::string mode = arg(argc, argv, "mode", "calls"); threads = argn(argc, argv, "threads", 0);
	char name[] = "/tmp/verif_linux_XXXXXX"; scratch_fd = mkstemp(name); if (scratch_fd < 0) return 3; unlink(name);
	(void)!write(scratch_fd, "host secret 0123456789abcdef", 28); lseek(scratch_fd, 0, SEEK_SET); scratch_size = 28;
	char name2[] = "/tmp/verif_linux_XXXXXX"; cap_fd = mkstemp(name2); if (cap_fd < 0) return 3; unlink(name2);
	g_msg_fd = dup(1); fflush(stdout); dup2(cap_fd, 1); dup2(cap_fd, 2); fcntl(cap_fd, F_SETFL, O_APPEND); { int fl = fcntl(1, F_GETFL); fcntl(1, F_SETFL, fl | O_APPEND); }
	Rng g(seed * 1000003 + shard * 7919 + (mode == "sig" ? 77 : 5) + threads);
	static const std::vector<u64> calls = {64,64,64,66,66,66,63,56,57,80,80,291,29,25,78,78,73,73,214,226,233,113,113,169,101,178,96,172,174,175,176,177,123,261,278,278,99,98,167,135,93,94,132,134,130,131,1000,425,0,511,512,(1ull<<32)+64};
	static const std::vector<u64> tcalls = {64,63,80,113,278,132,132,132,134,134,134,130,178};
	static const std::vector<u64> sigs = {132,132,134,134,134,134,134,130,130,131,135};
	for (u64 i = 0; i < count; i++) {
		new_arena(g);
		for (u64 k = 0; k < per; k++) {
			u64 num = mode == "sig" ? (threads ? (g.chance(1, 3) ? 132 : g.chance(1, 2) ? 134 : 130) : g.pick(sigs)) : threads ? g.pick(tcalls) : g.pick(calls);
			if (threads && g.chance(1, 5)) { // another thread continues
				auto& R = M->cpu.registers(); bool fresh = M->threads().m_threads.size() < 4 && g.chance(1, 2);
				R.get(4) = 0; R.get(5) = 4096 + g.below(100) * 16; R.get(6) = R.get(7) = R.get(8) = 0; R.get(11) = fresh ? 220 : 124;
				M->cpu.jump(CODE); g_now = "switching threads"; try { M->simulate(100, 0); } catch (const std::exception&) {}
				Out o; o.obj(); o.kstr("e", "switch"); o.knum("tid", M->gettid()); o.eobj(); emit(o);
			}
			u64 a[6]; for (auto& x : a) x = g.chance(1, 2) ? g.below(64) : g.next();
			std::vector<u8> d;
			auto place = [&](u64 n) -> u64 { d.resize(n); u64 at = g.chance(1, 8) ? RO + g.below(SZ - RO - n) : g.chance(1, 6) ? SZ - n : RW + g.below(SZ - RW - n); poke(at, d); return at; };
			switch (num) {
			case 64: case 63: a[0] = fdarg(g); a[1] = buf(g, 20); a[2] = len(g, a[1]); break;
			case 66: { a[0] = g.chance(3, 4) ? 1 + g.below(2) : fdarg(g); u64 n = g.below(5); for (u64 j = 0; j < n; j++) { u64 b = g.chance(1, 6) ? buf(g, 20) : RO + g.below(SZ - RO - 40); w64(d, b); w64(d, g.chance(1, 8) ? len(g, b) : g.chance(1, 6) ? 0 : g.below(40)); }
				a[1] = n ? place(16 * n) : buf(g, 16); a[2] = g.chance(1, 8) ? len(g, a[1]) : n + (g.chance(1, 10) ? 1 : 0); if (g.chance(1, 12)) a[1] = buf(g, 32); if (g.chance(1, 16)) a[2] = 1023 + g.below(3); break; }
			case 57: case 29: a[0] = fdarg(g); break;
			case 80: a[0] = g.chance(3, 4) ? g.below(3) : fdarg(g); a[1] = buf(g, 128); break;
			case 56: case 291: { const char* p = "/etc/hostname"; for (size_t j = 0; j <= strlen(p); j++) d.push_back(p[j]); a[0] = -100; a[1] = place(d.size()); a[2] = num == 56 ? g.below(3) : RW; a[3] = 0; break; }
			case 78: { static const std::vector<const char*> ps = {"/proc/self/exe", "/proc/self/exe", "/proc/self/cwd", "/etc/hostname", "/proc/self/exe2", "/proc/self/ex", ""}; const char* p = g.pick(ps); for (size_t j = 0; j <= strlen(p); j++) d.push_back(p[j]);
				a[1] = place(d.size()); if (g.chance(1, 8)) a[1] = buf(g, 16); a[2] = buf(g, 12); a[3] = g.chance(1, 3) ? g.below(14) : g.chance(1, 2) ? 256 : g.next(); break; }
			case 73: { u64 n = g.below(6); for (u64 j = 0; j < n; j++) { u32 fd = (u32)fdarg(g); for (int q = 0; q < 4; q++) d.push_back(fd >> (8 * q)); d.push_back(g.chance(1, 4) ? 0 : g.below(8)); d.push_back(g.chance(1, 4)); d.push_back((u8)g.next()); d.push_back((u8)g.next()); }
				a[0] = n ? place(8 * n) : buf(g, 8); a[1] = g.chance(1, 6) ? len(g, a[0]) : n; if (g.chance(1, 10)) a[0] = buf(g, 24); if (g.chance(1, 16)) a[1] = 1023 + g.below(3); break; }
			case 113: { static const std::vector<u64> c = {0, 0, 1, 1, 4, 5, 6, 7, 12, 13, 14, 15, 100, 0x7FFFFFFF, 0x100000000ull, 1ull << 63}; a[0] = g.pick(c); a[1] = g.chance(1, 8) ? 0 : buf(g, 16); break; }
			case 169: a[0] = g.chance(1, 8) ? 0 : buf(g, 16); break;
			case 101: a[0] = g.chance(1, 8) ? 0 : buf(g, 16); a[1] = g.chance(1, 3) ? 0 : buf(g, 16); break;
			case 123: a[1] = g.chance(1, 4) ? g.below(10) : 8 + g.below(200); a[2] = g.chance(1, 8) ? 0 : buf(g, 8); break;
			case 261: a[1] = g.chance(1, 2) ? (g.chance(1, 2) ? 3 : 7) : g.below(16); a[3] = g.chance(1, 8) ? 0 : buf(g, 16); break;
			case 278: a[0] = buf(g, 20); a[1] = len(g, a[0]); break;
			case 98: { static const std::vector<u64> f = {0, 1, 128, 129, 2, 9, 10, 130, 256, 0x100000000ull, 257}; a[1] = g.pick(f); a[0] = buf(g, 4); break; }
			case 132: if (g.chance(3, 4)) { w64(d, CODE + 16 * g.below(100)); w64(d, g.chance(1, 4) ? g.below(4) : 0); w64(d, g.chance(1, 5) ? 0 : 16 * g.below(100)); if (g.chance(1, 6)) { d.clear(); for (int q = 0; q < 3; q++) w64(d, g.next()); } }
				a[0] = d.empty() ? (g.chance(1, 2) ? 0 : buf(g, 24)) : place(24); a[1] = g.chance(1, 3) ? 0 : g.chance(1, 6) ? a[0] : buf(g, 24); break;
			case 134: a[0] = sigarg(g); if (g.chance(3, 4)) { w64(d, handler(g)); w64(d, g.chance(1, 2) ? 0x08000000 : g.chance(1, 2) ? g.next() : 0x14000000); w64(d, g.next()); }
				a[1] = d.empty() ? (g.chance(1, 2) ? 0 : buf(g, 24)) : place(24); a[2] = g.chance(1, 3) ? 0 : g.chance(1, 6) ? a[1] : buf(g, 24); a[3] = 8; break;
			case 130: a[1] = sigarg(g); break;
			case 131: a[1] = g.below(3); a[2] = sigarg(g); break;
			}
			call(num, a, g);
		}
	}
	fclose(g_out);
	dprintf(g_msg_fd, "DRIVER calls=%lu\n", (long)g_ops);
}
