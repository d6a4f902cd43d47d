// System call dispatch and argument conversion on real machines; judged by spec/SyscallsTrace.tla.
#include "common.hpp"
#include <tuple>
static const u64 SZ = 640, RO = 16, RW = 128, CODE = 32; static const u32 SYSCALL = 0x002B0000, BREAK = 0x002A0000, STOPW = 0x00150000, INC = 0x02C0058C; // addi.d $t0,$t0,1
static std::unique_ptr<Machine> ms[2]; static u64 g_ops = 0;
enum class E8 : int8_t {}; enum class EU16 : uint16_t {}; enum class E32 : int32_t {}; enum E64 : uint64_t {};
struct P3 { u8 a, b, c; }; struct P24 { u64 x; u32 y, z; u64 w; };
using SV = std::string_view; using S = std::string;
template <class T> struct TN; 
#define N(T, n) template <> struct TN<T> { static constexpr const char* name = n; };
N(int8_t, "i1") N(uint8_t, "i1") N(int16_t, "i2") N(uint16_t, "i2") N(int32_t, "i4") N(uint32_t, "i4") N(int64_t, "i8") N(uint64_t, "i8") N(E8, "i1") N(EU16, "i2") N(E32, "i4") N(E64, "i8")
N(float, "f4") N(double, "f8") N(S, "str") N(SV, "view") N(P3, "m3") N(P24, "m24") N(P24*, "m24") N(u32*, "m4") N(const P3*, "m3") N(bool, "bool") N(void, "none")
template <class T> struct RN { static constexpr const char* name = TN<T>::name; };
template <> struct RN<uint8_t> { static constexpr const char* name = "i1"; };
// what the handlers saw
static Out* g_seen = nullptr; static u64 g_rv = 0; static int g_act = 0; static u64 g_act_n = 0; static int g_act_h = 0;
typedef Machine::syscall_t* handler_t; static std::vector<handler_t>& table();
static void value(Out& o, const void* p, size_t n) { o.arr(); for (size_t i = 0; i < n; i++) o.num(((const u8*)p)[i]); o.end(); }
template <class T> static void show(Out& o, const T& v) { if constexpr (std::is_pointer_v<T>) value(o, v, sizeof(*v)); else if constexpr (std::is_same_v<T, S> || std::is_same_v<T, SV>) value(o, v.data(), v.size()); else value(o, &v, sizeof v); }
static int which(Machine& m) { return &m == ms[0].get() ? 1 : &m == ms[1].get() ? 2 : 0; }
static void entry(Machine& m, const char* kind, i64 id) {
	auto& o = *g_seen; o.obj(); o.kstr("k", kind); o.knum("id", id); o.knum("m", which(m)); o.kbytes("pc", m.cpu.pc()); auto& R = m.cpu.registers();
	o.karr("r"); for (int i = 0; i < 32; i++) o.bytes(R.get(i)); o.end();
}
template <int ID, class R, class... A> static void H(Machine& m) {
	entry(m, "h", ID); auto& o = *g_seen;
	try { auto t = m.sysargs<A...>(); o.karr("args"); std::apply([&](auto&... x) { (show(o, x), ...); }, t); o.end(); o.eobj(); }
	catch (...) { o.karr("args"); o.arr(); o.num(-1); o.end(); o.end(); o.eobj(); throw; }
	int act = g_act; g_act = 0;
	if (act == 4) m.system_call(g_act_n);
	if (act == 5) Machine::install_syscall_handler(g_act_n, table()[g_act_h - 1]);
	if constexpr (!std::is_void_v<R>) { R v; if constexpr (std::is_same_v<R, bool>) v = g_rv & 1; else memcpy(&v, &g_rv, sizeof v); m.set_result(v); }
	if (act == 1) throw MachineException(GUEST_ABORT, "thrown by a handler", 77);
	if (act == 2) m.stop();
	if (act == 3) { m.cpu.registers().pc = CODE + 4 * g_act_n - 4; }
}
static Out g_sigs;
struct Entry { handler_t fn; const char* res; std::vector<const char*> args; };
template <int ID, class R, class... A> static Entry E() { return {&H<ID, R, A...>, TN<R>::name, {TN<A>::name...}}; }
static std::vector<Entry>& entries() {
	static std::vector<Entry> e = {
		E<1, void>(), E<2, int8_t, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t>(), E<3, uint8_t, E8, EU16, E32, E64>(),
		E<4, int16_t, float, double, float>(), E<5, uint16_t, int32_t, float, uint64_t, double, uint8_t>(), E<6, int32_t, SV>(), E<7, uint32_t, int32_t, SV, uint32_t>(),
		E<8, int64_t, S>(), E<9, uint64_t, S, S, int32_t>(), E<10, float, P24>(), E<11, double, uint8_t, P3, P24, float>(), E<12, bool, P24*, u32*, const P3*>(),
		E<13, int32_t, SV, S, double, SV, float, uint16_t>(), E<14, uint32_t, double, double, double, double, double, double, double, double>(), E<15, int8_t, float, SV, E32, float, S>(), E<16, uint16_t, E64, P3, S, u32*>()};
	return e;
}
static std::vector<handler_t>& table() { static std::vector<handler_t> t; if (t.empty()) for (auto& e : entries()) t.push_back(e.fn); return t; }
template <int ID> static void U(Machine& m, int n) { entry(m, "u", ID); g_seen->karr("args"); g_seen->num(n); g_seen->end(); g_seen->eobj(); int act = g_act; g_act = 0; if (act == 1) throw MachineException(GUEST_ABORT, "thrown by a handler", 77); if (act == 2) m.stop(); m.set_result<int>(-38); }
static void install(u64 n, int h) { Machine::install_syscall_handler((unsigned)n, table()[h - 1]); Out o; o.obj(); o.kstr("e", "install"); o.knum("n", (i64)n); o.knum("h", h); o.eobj(); emit(o); }
static void set_unknown(int h) { Machine::set_unknown_syscall_handler(h == 1 ? &U<1> : &U<2>); Out o; o.obj(); o.kstr("e", "unknown"); o.knum("h", h); o.eobj(); emit(o); }
static void announce() {
	Out o; o.obj(); o.kstr("e", "sigs"); o.knum("max", LA_SYSCALLS_MAX); o.karr("sigs");
	for (auto& e : entries()) { o.obj(); o.kstr("res", e.res); o.karr("args"); for (auto a : e.args) o.str(a); o.end(); o.eobj(); } o.end(); o.eobj(); emit(o);
}
static void machine(int i, Rng& g) {
	g_now = "new machine"; auto opts = std::make_shared<MachineOptions>(); ms[i] = std::make_unique<Machine>(std::string_view{}, *opts); auto& m = *ms[i]; m.set_options(opts);
	m.memory.allocate_custom_arena(SZ, RO, RW); u8* A = (u8*)m.memory.arena_ptr();
	for (u64 k = 0; k < SZ + 64; k++) A[k] = g.chance(1, 5) ? 0 : (u8)g.next();
	u32 nsys = 0; static u32 code[16]; for (u32 k = 0; k < 16; k++) code[k] = k == 15 ? STOPW : k % 4 == 3 ? STOPW : (k == 13) ? BREAK : k % 4 == 1 ? SYSCALL : INC; (void)nsys;
	memcpy(A + CODE, code, sizeof code); m.cpu.init_execute_area(code, CODE, sizeof code);
	Out o; o.obj(); o.kstr("e", "machine"); o.knum("i", i + 1); o.knum("size", SZ); o.knum("ro", RO); o.knum("rw", RW); o.karr("mem"); for (u64 k = 0; k < SZ; k++) o.num(A[k]); o.end(); o.eobj(); emit(o);
}
static u64 ptr(Rng& g) { static const std::vector<u64> wild = {0, ~0ull, 1ull << 32, 1ull << 63, ~0ull - 23, SZ, SZ + 1}; switch (g.below(9)) { case 0: return g.pick(wild); case 1: return SZ - g.below(30); case 2: return RO - 4 + g.below(8); default: return RW + g.below(SZ - RW - 30); } }
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 1500);
	Rng g(seed * 1000003 + shard * 7919 + 31);
	announce();
	static const std::vector<u64> nums = {0, 1, 64, 93, 222, 500, 510, 511};
	int H0 = (int)entries().size();
	for (int i = 0; i < 3; i++) install(g.pick(nums), 1 + g.below(H0)); // before any machine exists
	if (g.chance(1, 2)) set_unknown(1 + g.below(2));
	for (int i = 0; i < 2; i++) machine(i, g);
	for (u64 k = 0; k < count; k++) {
		if (g.chance(1, 8)) { install(g.chance(1, 6) ? std::vector<u64>{512, 513, 1000, 0xFFFFFFFF, 0x7FFFFFFF}[g.below(5)] & 0x7FFFFFFF : g.pick(nums), 1 + g.below(H0)); }
		if (g.chance(1, 60)) set_unknown(1 + g.below(2));
		if (g.chance(1, 100)) { machine(g.below(2), g); }
		int mi = g.below(2); auto& m = *ms[mi]; auto& R = m.cpu.registers();
		u64 r[32], f[32]; r[0] = 0; for (int i = 1; i < 32; i++) r[i] = g.word(); for (int i = 0; i < 32; i++) f[i] = g.chance(1, 2) ? g.fword() : g.next();
		for (int i = 4; i < 12; i++) if (g.chance(1, 2)) r[i] = g.chance(2, 3) ? ptr(g) : g.below(40);
		for (int i = 4; i < 11; i++) if (g.chance(1, 2)) { r[i] = ptr(g); r[i + 1] = g.chance(1, 8) ? SZ - r[i] + g.below(3) - 1 : g.below(30); }
		static const std::vector<u64> odd = {512, 513, 0x1FF00, 0xFFFF, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 1ull << 32, (1ull << 32) + 64, (1ull << 40) + 93, ~0ull, ~0ull - 63, 1ull << 63, (1ull << 63) + 1};
		r[11] = g.chance(1, 5) ? g.pick(odd) : g.chance(1, 8) ? g.below(600) : g.pick(nums);
		int eng = g.below(4); u64 blk = g.below(4); // which block: INC SYSCALL INC STOP (the last has BREAK)
		g_act = g.chance(1, 2) ? 0 : 1 + g.below(5); g_act_n = g_act == 3 ? 4 * g.below(4) + 2 + g.below(2) : g.pick(nums); g_act_h = 1 + g.below(H0); g_rv = g.word();
		if (eng == 3 && g_act == 3) g_act = 0;
		for (int i = 1; i < 32; i++) R.get(i) = r[i]; for (int i = 0; i < 32; i++) memcpy(&R.getfl64(i), &f[i], 8);
		char b[160]; snprintf(b, sizeof b, "engine %d system call %llu action %d/%llu/%d machine %d", eng, (long long)r[11], g_act, (long long)g_act_n, g_act_h, mi); g_now = b;
		Out seen; seen.arr(); g_seen = &seen; std::string out = "stop"; i64 data = 0;
		Out o; o.obj(); o.kstr("e", "call"); o.knum("m", mi + 1); o.knum("eng", eng); o.knum("blk", (i64)blk); o.knum("act", g_act); o.knum("an", (i64)g_act_n); o.knum("ah", g_act_h); o.kbytes("rv", g_rv);
		o.karr("r"); for (int i = 0; i < 32; i++) o.bytes(r[i]); o.end(); o.karr("f"); for (int i = 0; i < 32; i++) o.bytes(f[i]); o.end();
		std::vector<u8> mem0((u8*)ms[0]->memory.arena_ptr(), (u8*)ms[0]->memory.arena_ptr() + SZ + 64), mem1((u8*)ms[1]->memory.arena_ptr(), (u8*)ms[1]->memory.arena_ptr() + SZ + 64);
		u64 other[32]; for (int i = 0; i < 32; i++) other[i] = ms[1 - mi]->cpu.registers().get(i);
		m.cpu.jump(CODE + 16 * blk);
		try {
			if (eng == 0) { m.set_max_instructions(UINT64_MAX); for (int n = 0; n < 60; n++) { u64 p = m.cpu.pc(); m.cpu.step_one(true); if (m.stopped() || ((u32*)((u8*)m.memory.arena_ptr() + p))[0] == STOPW) break; } }
			else if (eng == 1) { if (!m.simulate(1000, 0)) out = "limit"; }
			else if (eng == 2) m.cpu.simulate_inaccurate(m.cpu.pc());
			else { m.set_max_instructions(UINT64_MAX); m.system_call(r[11]); }
		} catch (const MachineException& e) { out = exname(e.type()); data = (i64)(i32)e.data(); } catch (const std::exception& e) { out = std::string("exception: ") + e.what(); }
		seen.end(); g_ops++;
		o.kstr("out", out); o.knum("data", data); o.key("seen"); o.raw(seen.s); o.first = false; o.kbytes("pc", m.cpu.pc());
		o.karr("r2"); for (int i = 0; i < 32; i++) o.bytes(R.get(i)); o.end(); o.karr("fd"); for (int i = 0; i < 32; i++) { u64 v; memcpy(&v, &R.getfl64(i), 8); if (v != f[i]) { o.arr(); o.num(i + 1); o.bytes(v); o.end(); } } o.end();
		bool memsame = !memcmp(mem0.data(), ms[0]->memory.arena_ptr(), SZ + 64) && !memcmp(mem1.data(), ms[1]->memory.arena_ptr(), SZ + 64); bool othersame = true; for (int i = 0; i < 32; i++) othersame &= other[i] == ms[1 - mi]->cpu.registers().get(i);
		o.knum("memsame", memsame); o.knum("othersame", othersame); o.eobj(); emit(o);
	}
	fclose(g_out); printf("DRIVER calls=%lu\n", (long)g_ops);
}
