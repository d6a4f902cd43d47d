// Host calls of a guest function with many argument lists: what the function finds in its registers and on
// its stack at entry, and what the host gets back. Judged by spec/CallArgsTrace.tla.
#include "elfgen.hpp"
#include <array>
#include <tuple>
static u64 g_ops = 0;
static const u32 RET = 0x4C000020, STOP = 0x00150000, SYSCALL = 0x002B0000;
static const int HOOK = 480;
enum E32 : int { };
enum class E8 : uint8_t { };
enum class EU32 : uint32_t { };
enum class E64 : int64_t { };
struct S3 { char c[3]; }; struct S16 { u64 a; double d; }; struct S24 { u32 a; float f; u64 b; uint16_t h[4]; }; struct S100 { u8 b[100]; };
struct Lit { char c[6]; };
struct World {
	std::unique_ptr<Machine> m; std::vector<u8> file; Rng* r; bool entered = false; u64 sp, ra, pc, ir[8], fr[8]; u64 top = 0; std::vector<u8> snap, stack; bool elsewhere = false; u64 a0, fa0; std::map<std::string, u64> probes;
	u8* A() { return (u8*)m->memory.arena_ptr(); } u64 size() { return m->memory.arena_size(); }
};
static World* W;
struct A0 { std::string k = "int"; int w = 8; bool sg = false; std::vector<u8> b; u64 ptr = 0; };
static std::vector<u8> raw(const void* p, size_t n) { return std::vector<u8>((const u8*)p, (const u8*)p + n); }
static std::string text(Rng& r, bool nul) { std::string s(r.chance(1, 12) ? 100 + r.below(200) : r.below(40), 'x'); for (auto& c : s) { c = (char)r.next(); if (!c && (!nul || r.chance(1, 2))) c = 1; } return s; }
// one argument: what the host holds, what it passes, what the specification is told
template <class T> struct Scalar { T v; explicit Scalar(World& w) { u64 x = w.r->word(); if constexpr (std::is_same_v<T, bool>) v = x & 1; else memcpy(&v, &x, sizeof v); }
	T& pass() { return v; } A0 log() { return {"int", (int)sizeof(T), std::is_signed_v<T>, raw(&v, sizeof v)}; } };
template <class T, class U> struct Enum { T v; explicit Enum(World& w) { u64 x = w.r->word(); memcpy(&v, &x, sizeof v); } T& pass() { return v; } A0 log() { return {"int", (int)sizeof(T), std::is_signed_v<U>, raw(&v, sizeof v)}; } };
template <class T> struct Flt { T v; explicit Flt(World& w) { u64 x = w.r->fword(); memcpy(&v, &x, sizeof v); if (v != v) v = 2.5; } T& pass() { return v; } A0 log() { return {"float", (int)sizeof(T), false, raw(&v, sizeof v)}; } };
struct Str { std::string v; explicit Str(World& w) : v(text(*w.r, true)) {} std::string& pass() { return v; } A0 log() { return {"mem", 0, false, raw(v.c_str(), v.size() + 1)}; } };
struct CStr { std::string v; const char* p; explicit CStr(World& w) : v(text(*w.r, false)), p(v.c_str()) {} const char*& pass() { return p; } A0 log() { return {"mem", 0, false, raw(v.c_str(), v.size() + 1)}; } };
struct MStr { std::string v; char* p; explicit MStr(World& w) : v(text(*w.r, false)), p(v.data()) {} char*& pass() { return p; } A0 log() { return {"mem", 0, false, raw(v.c_str(), v.size() + 1)}; } };
template <class T> struct Struc { T v; explicit Struc(World& w) { u8 b[sizeof v]; for (auto& x : b) x = w.r->next(); memcpy((void*)&v, b, sizeof v); } T& pass() { return v; } A0 log() { return {"mem", 0, false, raw(&v, sizeof v)}; } };
struct Arr { Lit v; explicit Arr(World& w) { for (auto& x : v.c) x = w.r->chance(1, 5) ? 0 : w.r->next(); } const char (&pass())[6] { return v.c; } A0 log() { return {"mem", 0, false, raw(&v, 6)}; } };
struct GStr { std::string v; GuestStdString g; explicit GStr(World& w) : v(w.r->chance(2, 3) ? text(*w.r, true).substr(0, 20) : text(*w.r, true)), g(*w.m, v) {} ~GStr() { if (v.size() > 15) g.free(*W->m); } GuestStdString& pass() { return g; }
	A0 log() { A0 a{"gss", 0, false, raw(v.data(), v.size())}; a.ptr = g.ptr; return a; } };
struct Scop { ScopedArenaObject<u64> v; explicit Scop(World& w) : v(*w.m, w.r->next()) {} ScopedArenaObject<u64>& pass() { return v; } A0 log() { u64 a = v.address(); return {"int", 8, false, raw(&a, 8)}; } };
typedef std::tuple<Scalar<int8_t>, Scalar<uint8_t>, Scalar<int16_t>, Scalar<uint16_t>, Scalar<int32_t>, Scalar<uint32_t>, Scalar<int64_t>, Scalar<uint64_t>, Scalar<bool>, Scalar<char>, Enum<E32, int>, Enum<E8, u8>, Enum<EU32, u32>, Enum<E64, i64>,
	Flt<float>, Flt<double>, Str, CStr, MStr, Struc<S3>, Struc<S16>, Struc<S24>, Struc<S100>, Arr, GStr, Scop, Flt<double>, Flt<float>, Flt<double>, Scalar<int64_t>, Scalar<int32_t>, Scalar<uint32_t>, Str, Struc<S16>> Kinds;
typedef std::tuple<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, bool, char, float, double> Rets;
constexpr u64 mix(u64 s) { u64 z = s * 0x9E3779B97F4A7C15ull + 0x7654321; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
// the signatures: some of one family only, so that registers of that family run out
constexpr int nargs(int s) { return s < 13 ? s : s % 4 == 0 ? 9 + mix(s) % 9 : mix(s) % 13; }
constexpr size_t kind(int s, int i) {
	const int ints[] = {0, 3, 4, 5, 6, 7, 8, 12}, flts[] = {14, 15, 15, 14}, mems[] = {16, 17, 18, 19, 20, 21, 22, 23, 24}; u64 x = mix(s * 131 + i * 7 + 5);
	switch (s % 5) { case 1: return x % 4 ? flts[(x >> 8) % 4] : ints[(x >> 16) % 8]; case 2: return x % 4 ? mems[(x >> 8) % 9] : ints[(x >> 16) % 8]; case 3: return x % 5 ? ints[(x >> 8) % 8] : x % 2 ? 15 : 16; }
	return x % std::tuple_size_v<Kinds>;
}
static void hook(Machine& m) {
	World& w = *W; auto& cpu = m.cpu; w.entered = true; w.sp = cpu.reg(REG_SP); w.ra = cpu.reg(REG_RA); w.pc = cpu.reg(REG_T1);
	for (int i = 0; i < 8; i++) { w.ir[i] = cpu.reg(REG_A0 + i); double d = cpu.registers().getfl64(i); memcpy(&w.fr[i], &d, 8); }
	w.ir[7] = cpu.reg(REG_T0);
	w.stack.clear(); if (w.sp < w.top && w.top - w.sp < 6000) w.stack.assign(w.A() + w.sp, w.A() + w.top);
	u8* a = w.A(); u64 lo = w.stack.size() ? w.sp : w.top; w.elsewhere = memcmp(a, w.snap.data(), lo) || memcmp(a + w.top, w.snap.data() + w.top, w.size() - w.top);
	cpu.reg(REG_A0) = w.a0; double d; memcpy(&d, &w.fa0, 8); cpu.registers().getfl64(0) = d;
}
static void build(World& w, Rng& r) {
	ElfSpec e; Seg c{}; c.type = 1; c.flags = 5; c.vaddr = 0x10000; std::vector<u32> code; auto here = [&] { return 0x10000 + 4 * code.size(); };
	while (r.chance(1, 2)) code.push_back(RET);
	e.syms.push_back({"fast_exit", 0x12, here(), 4}); code.push_back(STOP);
	for (auto n : {"probe", "probe2", "_probe", "prob"}) {
		while (r.chance(1, 2)) code.push_back(RET);
		w.probes[n] = here(); e.syms.push_back({n, 0x12, here(), 4});
		u32 pcaddi_t1 = 0x18000000 | 13, or_t0 = 0x00150000 | 11u << 5 | 12; // t1 = pc; t0 = a7
		code.push_back(pcaddi_t1); code.push_back(or_t0); code.push_back(0x03800000u | (u32)HOOK << 10 | 11); code.push_back(SYSCALL); code.push_back(RET);
	}
	c.data.resize(4 * code.size()); memcpy(c.data.data(), code.data(), c.data.size()); c.filesz = c.memsz = c.data.size(); e.segs.push_back(c);
	Seg d{}; d.type = 1; d.flags = 6; d.vaddr = 0x20000; d.filesz = d.memsz = 64; d.data.resize(64); e.segs.push_back(d);
	e.entry = 0x10000; w.file = e.build(r);
	MachineOptions opt; opt.brk_size = 4096; opt.stack_size = 65536; opt.memory_max = 0x80000; opt.use_shared_execute_segments = r.chance(1, 2);
	w.m = std::make_unique<Machine>(std::string_view((char*)w.file.data(), w.file.size()), opt); w.m->memory.set_exit_address(w.m->address_of("fast_exit"));
	w.m->setup_accelerated_heap(w.m->memory.mmap_allocate(16384), 16384);
}
template <int STYLE, class Ret, class... Args> static u64 call(World& w, const std::string& name, u64 addr, Args&&... args) {
	auto& m = *w.m; u64 x = 0; auto keep = [&](auto v) { if constexpr (std::is_floating_point_v<decltype(v)>) memcpy(&x, &v, sizeof v); else x = (u64)(i64)v; };
	if constexpr (STYLE == 0) keep(m.vmcall<Ret>(addr, std::forward<Args>(args)...));
	else if constexpr (STYLE == 1) keep(m.vmcall<Ret>(name, std::forward<Args>(args)...));
	else if constexpr (STYLE == 2) keep(m.vmcall<Ret, 1000>(addr, std::forward<Args>(args)...));
	else if constexpr (STYLE == 3) keep(m.vmcall<Ret, 1000>(name, std::forward<Args>(args)...));
	else if constexpr (STYLE == 4) { m.timed_vmcall(addr, 1000, std::forward<Args>(args)...); keep(m.return_value<Ret>()); }
	else if constexpr (STYLE == 5) x = m.preempt<true, false>(1000, addr, std::forward<Args>(args)...);
	else if constexpr (STYLE == 6) x = m.preempt<false, true>(1000, name, std::forward<Args>(args)...);
	else x = m.preempt<true, true>(1000, addr, std::forward<Args>(args)...);
	return x;
}
static const char* STYLES[] = {"vmcall address", "vmcall name", "bounded vmcall address", "bounded vmcall name", "timed_vmcall", "preempt", "preempt keeping registers by name", "preempt keeping registers"};
template <int S, int STYLE, size_t... I> static void one(World& w, Rng& r, std::index_sequence<I...>) {
	typedef std::tuple_element_t<mix(S * 17 + STYLE) % std::tuple_size_v<Rets>, Rets> Ret0; constexpr bool pre = STYLE >= 5; typedef std::conditional_t<pre, u64, Ret0> Ret;
	auto& m = *w.m; auto& cpu = m.cpu;
	auto held = std::make_tuple(std::unique_ptr<std::tuple_element_t<kind(S, I), Kinds>>(new std::tuple_element_t<kind(S, I), Kinds>(w))...);
	std::vector<A0> args{std::get<I>(held)->log()...};
	auto it = w.probes.begin(); std::advance(it, r.below(w.probes.size())); std::string name = it->first; u64 addr = it->second;
	for (int i = 1; i < 32; i++) if (i != 3) cpu.reg(i) = r.next();
	for (int i = 0; i < 32; i++) { u64 x = r.next(); double d; memcpy(&d, &x, 8); cpu.registers().getfl64(i) = d; }
	u64 sp0 = m.memory.stack_address(); if (pre && STYLE != 5) { sp0 -= r.below(3000); if (r.chance(2, 3)) sp0 &= ~15ull; cpu.reg(REG_SP) = sp0; }
	for (u64 a = sp0 - 5000; a < m.memory.stack_address(); a += 8) { u64 x = r.next(); memcpy(w.A() + a, &x, std::min<u64>(8, m.memory.stack_address() - a)); }
	w.top = sp0; w.snap.assign(w.A(), w.A() + w.size()); w.entered = false; w.a0 = r.word(); w.fa0 = r.fword(); w.stack.clear(); w.elsewhere = false;
	if (std::is_same_v<Ret, bool>) w.a0 &= 1;
	if (std::is_same_v<Ret, double>) { double d; memcpy(&d, &w.fa0, 8); if (d != d) w.fa0 = 1ull << 62; } if (std::is_same_v<Ret, float>) { float f; memcpy(&f, &w.fa0, 4); if (f != f) w.fa0 = 0x40000000; }
	char t[120]; snprintf(t, sizeof t, "signature %d, %s", S, STYLES[STYLE]); g_now = t; alarm(60);
	std::string out = "ok"; u64 x = 0;
	constexpr bool mv = mix(S * 3 + STYLE) % 2; // by reference or moved
	try { if constexpr (mv) x = call<STYLE, Ret>(w, name, addr, std::move(std::get<I>(held)->pass())...); else x = call<STYLE, Ret>(w, name, addr, std::get<I>(held)->pass()...); }
	catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = std::string("exception ") + e.what(); }
	g_ops++;
	Out o; o.obj(); o.kstr("op", "call"); o.knum("sig", S); o.kstr("style", STYLES[STYLE]); o.karr("args");
	for (auto& a : args) { o.obj(); o.kstr("k", a.k); o.knum("w", a.w); o.kbool("sg", a.sg); o.karr("b"); for (u8 c : a.b) o.num(c); o.end(); o.kbytes("ptr", a.ptr); o.eobj(); }
	o.end(); o.kstr("out", out); o.kbool("entered", w.entered); o.kbool("right", w.entered && w.pc == addr); o.kbytes("sp0", sp0); o.kbytes("sp", w.sp); o.kbytes("ra", w.ra); o.kbytes("exit", m.memory.exit_address());
	o.karr("ir"); for (u64 v : w.ir) o.bytes(v); o.end(); o.karr("fr"); for (u64 v : w.fr) o.bytes(v); o.end(); o.karr("stack"); for (u8 c : w.stack) o.num(c); o.end(); o.kbool("elsewhere", w.elsewhere);
	o.kbytes("a0", w.a0); o.kbytes("fa0", w.fa0); o.kstr("rk", std::is_same_v<Ret, float> ? "float" : std::is_same_v<Ret, double> ? "double" : "int"); o.knum("rw", sizeof(Ret)); o.kbool("rs", std::is_signed_v<Ret>); o.kbytes("ret", x); emit((o.eobj(), o));
}
template <int S> static void sig(World& w, Rng& r) {
	constexpr int a = mix(S * 11 + 1) % 8, b = (a + 1 + mix(S) % 3) % 8;
	typedef std::make_index_sequence<nargs(S)> Seq;
	one<S, a>(w, r, Seq{}); one<S, b>(w, r, Seq{});
}
template <int... S> static void all(World& w, Rng& r, std::integer_sequence<int, S...>) { (sig<S>(w, r), ...); }
static void missing(World& w, Rng& r) { // a name that is no function of the program
	auto& m = *w.m; std::string n = r.pick(std::vector<std::string>{"", "Probe", "probe ", "prob3", "fast", "probe22", "main"}), out = "ok"; int s = r.below(3); w.entered = false;
	try { if (s == 0) m.vmcall<int>(n, 1, 2); else if (s == 1) m.vmcall<u64, 100>(n, 1); else m.preempt<true, true>(100, n, 1); }
	catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = "exception"; }
	g_ops++; Out o; o.obj(); o.kstr("op", "missing"); o.kstr("style", n); o.kstr("out", out); o.kbool("entered", w.entered); emit((o.eobj(), o));
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 3);
	{ Machine first{std::string_view{}}; } Machine::install_syscall_handler(HOOK, hook);
	Rng r(seed * 7919 + shard * 104729 + 41);
	for (u64 i = 0; i < count; i++) { World w; w.r = &r; W = &w; build(w, r); all(w, r, std::make_integer_sequence<int, 64>{}); missing(w, r); missing(w, r); }
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
