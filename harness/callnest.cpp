// Bounded calls of guest functions, and preemptive calls made from system call handlers while the guest is
// inside one. What each hook does is decided by a script, consumed in order. Judged by spec/CallsTrace.tla.
// paths=FILE of=N shard=I replays the model's scripts; otherwise random ones.
#include "elfgen.hpp"
#include <fstream>
#include <sstream>
static u64 g_ops = 0;
static const u32 RET = 0x4C000020, STOP = 0x00150000, SYSCALL = 0x002B0000;
static const int HOOK = 481, STOPHOOK = 482;
static const u64 INF = 1000000000;
static const char* FN[] = {"work", "hooked", "forever", "faulty", "stopper", "deep"};
struct Item { std::string op = "none", f; u64 n = 0, B = 0; bool thr = false, caught = false; };
struct Obs { std::string out; u64 x = 0; bool kept = true; };
static std::vector<Item> g_script; static size_t g_at; static std::vector<Obs> g_obs; static std::map<std::string, u64> g_addr; static bool g_byname;
static std::vector<u8> image(Rng& r) {
	std::vector<u32> c; auto here = [&] { return 0x10000 + 4 * (u64)c.size(); };
	auto ori = [](int d, int j, u32 i) { return 0x03800000u | i << 10 | j << 5 | d; }; auto addi = [](int d, int j, int i) { return 0x02C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d; };
	auto add = [](int d, int j, int k) { return 0x00108000u | k << 10 | j << 5 | d; }; auto mv = [](int d, int j) { return 0x00150000u | j << 5 | d; }; auto slli = [](int d, int j, int i) { return 0x00410000u | i << 10 | j << 5 | d; };
	auto andi = [](int d, int j, u32 i) { return 0x03400000u | i << 10 | j << 5 | d; }; auto std_ = [](int d, int j, int i) { return 0x29C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d; }; auto ldd = [](int d, int j, int i) { return 0x28C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d; };
	auto bnez = [&](int j, u64 to) { u32 o = (u32)((i64)(to - here()) / 4); return 0x44000000u | (o & 0xffff) << 10 | j << 5 | ((o >> 16) & 31); }; auto beqz = [&](int j, i64 off) { u32 o = (u32)(off / 4); return 0x40000000u | (o & 0xffff) << 10 | j << 5 | ((o >> 16) & 31); };
	auto bl = [&](u64 to) { u32 o = (u32)((i64)(to - here()) / 4); return 0x54000000u | (o & 0xffff) << 10 | ((o >> 16) & 0x3ff); };
	ElfSpec e; auto fn = [&](const char* n) { while (r.chance(1, 2)) c.push_back(RET); e.syms.push_back({n, 0x12, here(), 4}); };
	const int SP = 3, RA = 1, A0 = 4, A7 = 11, T0 = 12, T1 = 13, T2 = 14, T3 = 15;
	fn("fast_exit"); c.push_back(STOP);
	fn("work"); c.push_back(mv(T1, 0)); c.push_back(mv(T2, 0)); c.push_back(mv(T0, 0)); { u64 L = here(); c.push_back(slli(T2, T1, 1)); c.push_back(add(T1, T1, T2)); c.push_back(add(T1, T1, A0)); c.push_back(andi(T1, T1, 0xFFF)); c.push_back(addi(A0, A0, -1)); c.push_back(bnez(A0, L)); } c.push_back(mv(A0, T1)); c.push_back(RET);
	fn("hooked"); c.push_back(addi(SP, SP, -32)); c.push_back(mv(T1, 0)); c.push_back(mv(T3, A0)); { u64 L = here(); c.push_back(std_(T1, SP, 8)); c.push_back(mv(A0, T3)); c.push_back(ori(A7, 0, HOOK)); c.push_back(SYSCALL); c.push_back(ldd(T1, SP, 8)); c.push_back(slli(T2, T1, 1)); c.push_back(add(T1, T1, T2)); c.push_back(add(T1, T1, A0)); c.push_back(andi(T1, T1, 0xFFF)); c.push_back(addi(T3, T3, -1)); c.push_back(bnez(T3, L)); } c.push_back(addi(SP, SP, 32)); c.push_back(mv(A0, T1)); c.push_back(RET);
	fn("forever"); { u64 L = here(); c.push_back(addi(T1, T1, 1)); u32 o = (u32)((i64)(L - here()) / 4); c.push_back(0x50000000u | (o & 0xffff) << 10 | ((o >> 16) & 0x3ff)); }
	fn("faulty"); { u64 L = here(); c.push_back(addi(A0, A0, -1)); c.push_back(bnez(A0, L)); c.push_back(ldd(T0, 0, 0)); c.push_back(RET); }
	fn("stopper"); c.push_back(addi(A0, A0, 7)); c.push_back(ori(A7, 0, STOPHOOK)); c.push_back(SYSCALL); c.push_back(ori(A0, 0, 3)); c.push_back(RET);
	fn("deep"); { u64 D = here(); c.push_back(beqz(A0, 4 * 9)); c.push_back(addi(SP, SP, -16)); c.push_back(std_(RA, SP, 8)); c.push_back(addi(A0, A0, -1)); c.push_back(bl(D)); c.push_back(ldd(RA, SP, 8)); c.push_back(addi(SP, SP, 16)); c.push_back(addi(A0, A0, 2)); c.push_back(RET); c.push_back(RET); }
	Seg s{}; s.type = 1; s.flags = 5; s.vaddr = 0x10000; s.data.resize(4 * c.size()); memcpy(s.data.data(), c.data(), s.data.size()); s.filesz = s.memsz = s.data.size(); e.segs.push_back(s); e.entry = 0x10000;
	return e.build(r);
}
static const char* outcome(const std::exception_ptr& p) { try { std::rethrow_exception(p); } catch (const MachineException& e) { return exname(e.type()); } catch (...) { return "exception"; } }
static void hook(Machine& m) {
	auto& cpu = m.cpu; Item it; if (g_at < g_script.size()) it = g_script[g_at++];
	if (it.op == "none") { cpu.reg(REG_A0) = 5; return; }
	size_t mine = g_obs.size(); g_obs.push_back({});
	Registers before = cpu.registers(); u64 counter = m.instruction_counter(), limit = m.max_instructions(), sp = before.get(REG_SP), top = m.memory.stack_address();
	std::vector<u8> stack((u8*)m.memory.arena_ptr() + sp, (u8*)m.memory.arena_ptr() + top);
	Obs ob; std::exception_ptr ex;
	try {
		u64 a = g_addr[it.f];
		u64 x = g_byname ? (it.thr ? m.preempt<true, true>(it.B, it.f, it.n) : m.preempt<false, true>(it.B, it.f, it.n)) : it.thr ? m.preempt<true, true>(it.B, a, it.n) : m.preempt<false, true>(it.B, a, it.n);
		ob.out = "ok"; ob.x = x; ob.kept &= cpu.reg(REG_A0) == x;
	} catch (...) { ex = std::current_exception(); ob.out = outcome(ex); }
	for (int i = 0; i < 32; i++) { if (i != REG_A0) ob.kept &= cpu.reg(i) == before.get(i); double p = cpu.registers().getfl64(i), q = before.getfl64(i); ob.kept &= !memcmp(&p, &q, 8); }
	ob.kept &= cpu.pc() == before.pc && m.instruction_counter() == counter && m.max_instructions() == limit && !memcmp(stack.data(), (u8*)m.memory.arena_ptr() + sp, stack.size());
	if (ex && it.caught) { cpu.reg(REG_A0) = 9; ob.x = 9; }
	if (!ex && ob.x > 4095) { ob.x &= 4095; cpu.reg(REG_A0) = ob.x; }
	g_obs[mine] = ob;
	if (ex && !it.caught) std::rethrow_exception(ex);
}
struct World { std::unique_ptr<Machine> m; std::vector<u8> file; };
static void make(World& w, Rng& r) {
	w.file = image(r); MachineOptions opt; opt.brk_size = 4096; opt.stack_size = 65536; opt.memory_max = 0x80000; opt.use_shared_execute_segments = r.chance(1, 2);
	w.m = std::make_unique<Machine>(std::string_view((char*)w.file.data(), w.file.size()), opt); w.m->memory.set_exit_address(w.m->address_of("fast_exit"));
	for (auto n : FN) g_addr[n] = w.m->address_of(n);
}
static u64 bounded(Machine& m, bool byname, u64 a, const std::string& f, u64 B, u64 n) { // budgets of vmcall are part of its type
#define C(b) case b: return byname ? m.vmcall<u64, b>(f, n) : m.vmcall<u64, b>(a, n);
	switch (B) { C(1) C(2) C(3) C(5) C(8) C(11) C(12) C(15) C(16) C(17) C(20) C(25) C(28) C(29) C(40) C(60) C(100) C(1000) }
	abort();
}
static const std::vector<u64> BS = {1, 2, 3, 5, 8, 11, 12, 15, 16, 17, 20, 25, 28, 29, 40, 60, 100, 1000};
static void top(World& w, Rng& r, const std::string& style, const std::string& f, u64 n, u64 B, std::vector<Item> script) {
	auto& m = *w.m; auto& cpu = m.cpu; g_script = script; g_at = 0; g_obs.clear(); g_byname = r.chance(1, 3); u64 a = g_addr[f], x = 0; std::string out = "ok"; bool byname = r.chance(1, 2); u64 slices = 0;
	char t[160]; snprintf(t, sizeof t, "%s %s(%lu) budget %lu, %zu script items", style.c_str(), f.c_str(), n, B, script.size()); g_now = t; alarm(60);
	for (int i = 1; i < 32; i++) cpu.reg(i) = r.next();
	bool storing = style == "preempt keeping"; if (storing) cpu.reg(REG_SP) = m.memory.stack_address() - 16 * r.below(40);
	if (r.chance(1, 4)) { m.set_instruction_counter(r.below(50)); m.set_max_instructions(r.chance(1, 2) ? r.below(50) : ~0ull); }
	try {
		if (style == "vmcall") { x = byname ? m.vmcall<u64>(f, n) : m.vmcall<u64>(a, n); }
		else if (style == "bounded vmcall") x = bounded(m, byname, a, f, B, n);
		else if (style == "timed_vmcall") { m.timed_vmcall(a, B, n); x = m.return_value<u64>(); }
		else if (style == "preempt") x = byname ? m.preempt<true, false>(B, f, n) : m.preempt<true, false>(B, a, n);
		else if (style == "preempt quiet") { x = m.preempt<false, false>(B, a, n); if (m.instruction_limit_reached()) out = "timeout"; }
		else if (style == "preempt keeping") x = m.preempt<true, true>(B, a, n);
		else { // simulate, slice by slice
			setup_call(m, m.memory.exit_address(), n); cpu.jump(a);
			for (;; slices++) { m.simulate(style == "sliced" ? B : ~0ull); if (!m.instruction_limit_reached() || slices > 5000) break; }
			x = cpu.reg(REG_A0);
		}
	} catch (...) { out = outcome(std::current_exception()); }
	g_ops++;
	Out o; o.obj(); o.kstr("style", style); o.kstr("f", f); o.knum("n", n); o.knum("B", B); o.karr("script");
	for (auto& i : script) { o.obj(); o.kstr("op", i.op); o.kstr("f", i.f); o.knum("n", i.n); o.knum("B", i.B); o.kbool("thr", i.thr); o.kbool("caught", i.caught); o.eobj(); }
	o.end(); o.karr("obs"); for (auto& b : g_obs) { o.obj(); o.kstr("out", b.out); o.knum("x", b.x); o.kbool("kept", b.kept); o.eobj(); } o.end();
	o.kstr("out", out); o.knum("x", x < 1000000000 ? x : 1000000001); o.knum("slices", slices); emit((o.eobj(), o));
}
static u64 budget(Rng& r) { return r.chance(1, 6) ? 200 + r.below(400) : 1 + r.below(70); }
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 1000), of = argn(argc, argv, "of", 8);
	{ Machine first{std::string_view{}}; } Machine::install_syscall_handler(HOOK, hook); Machine::install_syscall_handler(STOPHOOK, [](Machine& m) { m.stop(); });
	Rng r(seed * 7919 + shard * 104729 + 43); World w; u64 k = 0; auto fresh = [&] { if (k++ % 60 == 0) make(w, r); };
	const char* pf = arg(argc, argv, "paths", nullptr);
	if (pf) {
		std::ifstream f(pf); std::string line; u64 i = 0; if (!f) return 3;
		while (std::getline(f, line)) {
			if (i++ % of != shard || line.empty()) continue; std::vector<Item> sc; std::stringstream ls(line); std::string x, tf; u64 tn = 0, tb = 0;
			while (std::getline(ls, x, ';')) { std::stringstream ws(x); std::map<std::string, std::string> q; std::string t, op; ws >> op; while (ws >> t) { auto e = t.find('='); q[t.substr(0, e)] = t.substr(e + 1); }
				if (op == "top") { tf = q["f"]; tn = atoi(q["n"].c_str()); tb = atoi(q["B"].c_str()); } else if (op == "call") sc.push_back({"call", q["f"], (u64)atoi(q["n"].c_str()), (u64)atoi(q["B"].c_str()), q["thr"] == "1", q["caught"] == "1"}); else if (op == "none") sc.push_back({}); }
			fresh(); std::string st = tb >= INF ? (r.chance(1, 2) ? "vmcall" : "run") : r.pick(std::vector<std::string>{"timed_vmcall", "preempt", "preempt quiet", "preempt keeping", "sliced"});
			top(w, r, st, tf, tn, tb, sc);
		}
	} else for (u64 i = 0; i < count; i++) {
		fresh(); std::vector<Item> sc; u64 items = r.below(9);
		for (u64 j = 0; j < items; j++) if (r.chance(1, 4)) sc.push_back({}); else { Item it{"call", FN[r.chance(1, 3) ? 1 : r.below(6)], 1 + r.below(5), budget(r), r.chance(1, 2), false}; it.caught = r.chance(2, 3); sc.push_back(it); }
		std::string st = r.pick(std::vector<std::string>{"vmcall", "run", "timed_vmcall", "preempt", "preempt quiet", "preempt keeping", "sliced", "bounded vmcall", "bounded vmcall"}), f = FN[r.chance(1, 2) ? 1 : r.below(6)]; u64 n = 1 + r.below(6), B = budget(r);
		if (st == "bounded vmcall") B = r.pick(BS); bool inf = st == "vmcall" || st == "run"; if (inf) B = INF; if ((inf || st == "sliced") && f == "forever") f = "deep";
		top(w, r, st, f, n, B, sc);
	}
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
