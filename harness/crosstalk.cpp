// Several machines, each following its own list of operations, alternating on one thread or each on its own.
// Every machine's list is first followed with no other machine in the process (a forked child). Judged by
// spec/MachinesTrace.tla: whatever the others do, a machine's state after each of its operations is what it is alone.
// paths=FILE of=N shard=I replays the model's interleavings; mode=threads runs each machine on its own thread.
#include "elfgen.hpp"
#include <atomic>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <thread>
static u64 g_ops = 0;
static bool g_segs = true; // off with threads: counting references would order them
static const u32 RET = 0x4C000020, STOP = 0x00150000, NOP = 0x03400000, SYSCALL = 0x002B0000;
static const int HOOK = 481, WHO = 482;
static const u64 CODE = 0x10000, DATA = 0x20000, ARENA = 0x22000;
struct Prog { std::vector<u32> code; std::map<std::string, u64> at; std::vector<u8> file; };
static std::vector<Prog> g_progs;
static void program(int k, int extra) {
	Prog p; auto& c = p.code; auto here = [&] { return CODE + 4 * (u64)c.size(); }; ElfSpec e;
	auto ori = [&](int d, int j, u32 i) { c.push_back(0x03800000u | i << 10 | j << 5 | d); }; auto addi = [&](int d, int j, int i) { c.push_back(0x02C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d); };
	auto add = [&](int d, int j, int q) { c.push_back(0x00108000u | q << 10 | j << 5 | d); }; auto ldd = [&](int d, int j, int i) { c.push_back(0x28C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d); }; auto st_d = [&](int d, int j, int i) { c.push_back(0x29C00000u | ((u32)i & 0xfff) << 10 | j << 5 | d); };
	auto bnez = [&](int j, u64 to) { u32 o = (u32)((i64)(to - here()) / 4); c.push_back(0x44000000u | (o & 0xffff) << 10 | j << 5 | ((o >> 16) & 31)); };
	auto bl = [&](u64 to) { u32 o = (u32)((i64)(to - here()) / 4); c.push_back(0x54000000u | (o & 0xffff) << 10 | ((o >> 16) & 0x3ff)); };
	auto fn = [&](const char* n) { p.at[n] = here(); e.syms.push_back({n, 0x12, here(), 4}); };
	const int RA = 1, SP = 3, A0 = 4, A7 = 11, T1 = 13, T2 = 14, S0 = 23, S1 = 24, S2 = 25, S3 = 26;
	fn("__strlen_lsx"); ori(A0, 0, 100 + k); c.push_back(RET); for (int i = 0; i < extra; i++) c.push_back(NOP);
	fn("malloc"); ori(A0, 0, 0x55); c.push_back(RET);
	fn("func"); { addi(SP, SP, -16); ori(T1, 0, 0); u64 L = here(); add(T1, T1, A0); st_d(T1, SP, 8); addi(A0, A0, -1); bnez(A0, L); ldd(A0, SP, 8); addi(A0, A0, k); addi(SP, SP, 16); c.push_back(RET); }
	fn("hooked"); ori(A7, 0, HOOK); c.push_back(SYSCALL); c.push_back(RET);
	fn("faulty"); addi(A0, A0, 1); ldd(T1, 0, 0); ori(A0, 0, 0); c.push_back(RET);
	fn("sys"); c.push_back(SYSCALL); c.push_back(STOP);
	fn("exit"); c.push_back(STOP);
	fn("main"); { ori(S1, A0, 0); c.push_back(0x14000000u | 0x20u << 5 | S0); u64 L = here();
		ldd(T1, S0, 0); addi(T1, T1, k); st_d(T1, S0, 0); addi(S2, S0, 8); c.push_back(0x22000000u | S2 << 5 | T2); /* ll.d */ add(T2, T2, T1); c.push_back(0x23000000u | S2 << 5 | T2); /* sc.d */ add(S3, S3, T2);
		addi(A0, S0, 16); bl(p.at["__strlen_lsx"]); add(S3, S3, A0); c.push_back(0x0114A800u | S3 << 5 | 1); /* movgr2fr.d */ c.push_back(0x2C000000u | (u32)S0 << 5 | 3); /* vld */ p.at["vmax"] = here(); c.push_back(0x70700000u | 3u << 10 | 2u << 5 | 2); /* vmax.b */ c.push_back(0x70748000u | 3u << 10 | 2u << 5 | 2); /* vmax.hu */ c.push_back(0x2C400000u | 64u << 10 | (u32)S0 << 5 | 3); /* vst */
		ori(A0, 0, 24); bl(p.at["malloc"]); add(S3, S3, A0); ori(A7, 0, WHO); c.push_back(SYSCALL); add(S3, S3, A0); addi(S1, S1, -1); bnez(S1, L); ori(A0, S3, 0); c.push_back(STOP); }
	(void)RA; e.entry = p.at["main"]; Seg s{}; s.type = 1; s.flags = 5; s.vaddr = CODE; s.data.resize(4 * c.size()); memcpy(s.data.data(), c.data(), s.data.size()); s.filesz = s.memsz = s.data.size(); e.segs.push_back(s);
	Seg d{}; d.type = 1; d.flags = 6; d.vaddr = DATA; d.data.resize(256); memcpy(d.data.data() + 16, "four", 5); for (int i = 100; i < 256; i++) d.data[i] = i * 7; d.filesz = 256; d.memsz = 0x4000; e.segs.push_back(d);
	Rng r(9); p.file = e.build(r); g_progs.push_back(p);
}
struct Op { std::string op; int n = 0; };
struct Mach { std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; int p = 0, q = 0; bool ev = false; u64 id = 0, who = 0; int depth = 0; };
struct Hash { u64 h = 0xcbf29ce484222325ull; void u(u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; } void bytes(const u8* p, size_t n) { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, p + i, 8); u(v); } for (; i < n; i++) u(p[i]); } std::string hex() { char t[20]; snprintf(t, sizeof t, "%016lx", (long)h); return t; } };
typedef std::vector<std::string> Digest; // outcome, registers, memory, counters and layout
static Digest digest(Mach& x, const std::string& out) {
	if (!x.m) return {out, "", "", ""};
	auto& m = *x.m; Hash r, a, c; auto& R = m.cpu.registers(); for (int i = 0; i < 32; i++) { r.u(R.get(i)); r.bytes((const u8*)&R.getvr(i), sizeof(R.getvr(i))); } r.u(R.pc); r.bytes((const u8*)m.memory.arena_ptr(), 0);
	a.bytes((const u8*)m.memory.arena_ptr(), m.memory.arena_size());
	c.u(m.instruction_counter()); c.u(m.max_instructions()); c.u(m.memory.mmap_address()); c.u(m.memory.heap_address()); c.u(m.memory.exit_address()); c.u(m.has_arena()); if (m.has_arena()) { c.u(m.arena().bytes_used()); c.u(m.arena().bytes_free()); } c.u(x.who); c.u(m.get_userdata<Mach>() == &x); c.u(m.has_threads());
	if (g_segs) { auto seg = m.memory.exec_segment_for(CODE); c.u(seg && !seg->empty()); if (seg && !seg->empty()) { c.u(seg->exec_begin()); c.u(seg->exec_end()); } }
	return {out, r.hex(), a.hex(), c.hex()};
}
static void hook(Machine& m) { auto* x = m.get_userdata<Mach>(); x->who++; u64 n = m.sysarg(0); if (x->depth) { m.set_result(7); return; } struct In { int& d; In(int& d) : d(d) { d++; } ~In() { d--; } } in(x->depth); try { u64 r = m.preempt<true, true>(200, g_progs[x->q].at.at("func"), (n & 15) + 1); m.set_result(r + x->id); } catch (const MachineException& e) { m.set_result(e.type()); } }
static void who(Machine& m) { auto* x = m.get_userdata<Mach>(); x->who += 3; m.set_result(x->id); }
static const i64 SYS[][5] = {{214, 0, 0, 0, 0}, {214, 0x30000, 0, 0, 0}, {222, 0, 8192, 3, 0x22}, {215, 0x40000, 4096, 0, 0}, {178, 0, 0, 0, 0}, {96, 0x20200, 0, 0, 0}, {132, 0x20210, 0x20230, 0, 0}, {134, 10, 0x20250, 0x20280, 8}, {98, 0x20200, 1, 4, 0}, {261, 0, 3, 0, 0x202A0}, {64, 99, 0x20010, 4, 0}, {222, 0, 4096, 3, 0x22}, {131, 0, 0, 10, 0}, {226, 0x20000, 4096, 1, 0}, {470, 1, 2, 3, 4}};
static std::string apply(Mach& x, const Op& o, u64 id) {
	std::string out = "ok"; char t[64];
	try {
		if (o.op == "create") {
			x.m.reset(); x.p = x.q = o.n % (int)g_progs.size(); x.ev = false; x.id = id; x.who = 0; x.opt = std::make_shared<MachineOptions>(); x.opt->brk_size = 8192; x.opt->stack_size = 8192; x.opt->memory_max = 0x60000; x.opt->use_shared_execute_segments = o.n < 2 * (int)g_progs.size();
			auto& f = g_progs[x.p].file; x.m = std::make_unique<Machine>(std::string_view((const char*)f.data(), f.size()), *x.opt); x.m->set_options(x.opt); x.m->set_userdata(&x); x.m->memory.set_exit_address(g_progs[x.p].at["exit"]); return out; }
		if (!x.m) return "none"; auto& m = *x.m; auto& cpu = m.cpu; auto& P = g_progs[x.q]; u64 n = o.n; Hash h;
		if (o.op == "start") { cpu.reg(REG_A0) = 1 + n % 9; cpu.reg(REG_SP) = m.memory.stack_address(); cpu.jump(P.at.at("main")); }
		else if (o.op == "slice") { bool stopped = m.simulate(1 + n * 5); if (!stopped) out = "limit"; }
		else if (o.op == "run") { cpu.reg(REG_A0) = 1 + n % 9; cpu.reg(REG_SP) = m.memory.stack_address(); cpu.jump(P.at.at("main")); m.simulate(5000); }
		else if (o.op == "fast") { cpu.reg(REG_A0) = 1 + n % 9; cpu.reg(REG_SP) = m.memory.stack_address(); cpu.simulate_inaccurate(P.at.at("main")); }
		else if (o.op == "accel") m.setup_accelerated_syscalls();
		else if (o.op == "heap") m.setup_accelerated_heap(ARENA, 0x1000);
		else if (o.op == "call") { snprintf(t, sizeof t, "r%lu", (long)m.vmcall<u64, 300>(P.at.at("func"), 1 + n)); out = t; }
		else if (o.op == "name") { snprintf(t, sizeof t, "r%lu", (long)m.vmcall<u64, 300>("func", 1 + n)); out = t; }
		else if (o.op == "hook") { snprintf(t, sizeof t, "r%lu", (long)m.vmcall<u64, 300>(P.at.at("hooked"), n)); out = t; }
		else if (o.op == "fault") { cpu.jump(P.at.at("faulty")); m.simulate(100); }
		else if (o.op == "wild") { cpu.jump(0x3FFF0 + n * 4); m.simulate(100); }
		else if (o.op == "poke") { m.memory.write<u64>(DATA + 0x1000 + 8 * n, n * 77 + 1); cpu.reg(20 + n % 12) = n; }
		else if (o.op == "sys") { auto& s = SYS[n % (sizeof SYS / sizeof *SYS)]; cpu.reg(REG_A7) = s[0]; for (int i = 0; i < 4; i++) cpu.reg(REG_A0 + i) = s[1 + i]; cpu.reg(REG_A0 + 4) = -1; cpu.reg(REG_A0 + 5) = 0; cpu.jump(P.at.at("sys")); m.simulate(100); }
		else if (o.op == "host") { u64 no = SYS[n % (sizeof SYS / sizeof *SYS)][0]; m.system_call(no); }
		else if (o.op == "alloc") { if (m.has_arena()) { snprintf(t, sizeof t, "r%lx", (long)m.arena().malloc(n * 9)); out = t; } }
		else if (o.op == "mmap") { u64 a = m.memory.mmap_allocate(4096 * (1 + n % 3)); m.memory.write<u64>(a, n + 5); snprintf(t, sizeof t, "r%lx", (long)a); out = t; }
		else if (o.op == "threads") { m.setup_posix_threads(); snprintf(t, sizeof t, "r%d", m.gettid()); out = t; }
		else if (o.op == "stop") m.stop();
		else if (o.op == "text") { cpu.jump(n % 2 ? P.at.at("vmax") + 4 * (n / 2 % 2) : P.at.at("main") + 4 * (n % (P.code.size() - (P.at.at("main") - CODE) / 4))); std::string s = cpu.current_instruction_to_string() + cpu.registers().to_string(); h.bytes((const u8*)s.data(), s.size()); out = h.hex(); }
		else if (o.op == "evict") { m.memory.evict_execute_segments(); x.ev = true; }
		else if (o.op == "reload") { if (x.ev) { x.q = n % g_progs.size(); auto& c = g_progs[x.q].code; cpu.init_execute_area(c.data(), CODE, 4 * c.size()); x.ev = false; } }
		else if (o.op == "destroy") x.m.reset();
	} catch (const MachineException& e) { snprintf(t, sizeof t, " %lx", (long)e.data()); out = std::string(exname(e.type())) + t; } catch (const std::exception& e) { out = "exception"; }
	return out;
}
static void show(Out& o, const Digest& d) { o.arr(); for (auto& s : d) o.str(s); o.end(); }
static void note(int i, const Op& o) { char t[100]; snprintf(t, sizeof t, "machine %d %s %d", i, o.op.c_str(), o.n); g_now = t; }
// the digests a list of operations gives in a process of its own
static std::map<std::string, std::vector<Digest>> g_alone;
static const std::vector<Digest>& alone(int id, const std::vector<Op>& ops) {
	std::string key = std::to_string(id); for (auto& o : ops) key += ";" + o.op + std::to_string(o.n); if (g_alone.size() > 20000) g_alone.clear(); auto it = g_alone.find(key); if (it != g_alone.end()) return it->second;
	int fd[2]; if (pipe(fd)) abort(); fflush(g_out); fflush(stdout); pid_t pid = fork();
	if (pid == 0) { close(fd[0]); FILE* f = fdopen(fd[1], "w"); Mach x; for (auto& o : ops) { note(id, o); g_now += " alone"; alarm(60); auto d = digest(x, apply(x, o, id + 1)); fprintf(f, "%s|%s|%s|%s\n", d[0].c_str(), d[1].c_str(), d[2].c_str(), d[3].c_str()); } fclose(f); _exit(0); }
	close(fd[1]); FILE* f = fdopen(fd[0], "r"); std::vector<Digest> v; char buf[400];
	while (fgets(buf, sizeof buf, f)) { std::string s(buf); s.pop_back(); Digest d; std::stringstream ss(s); std::string y; while (std::getline(ss, y, '|')) d.push_back(y); while (d.size() < 4) d.push_back(""); v.push_back(d); }
	fclose(f); int st = 0; waitpid(pid, &st, 0); if (st) { printf("a machine alone died\n"); on_death(); _exit(70); } return g_alone[key] = v;
}
static void history(const std::vector<std::vector<Op>>& lists, const std::vector<int>& order, bool threads) {
	int n = lists.size(); { Out o; o.obj(); o.kstr("op", "alone"); o.karr("d"); for (int i = 0; i < n; i++) { auto& v = alone(i, lists[i]); o.arr(); for (auto& d : v) show(o, d); o.end(); } o.end(); o.eobj(); emit(o); }
	std::vector<Mach> ms(n);
	if (threads) {
		std::vector<std::vector<Digest>> got(n); std::vector<std::thread> ts; alarm(120); g_now = "machines on threads"; std::atomic<int> ready{0};
		for (int i = 0; i < n; i++) ts.emplace_back([&, i] { ready++; while (ready.load() < n) {} for (auto& o : lists[i]) got[i].push_back(digest(ms[i], apply(ms[i], o, i + 1))); });
		for (auto& t : ts) t.join();
		for (int i = 0; i < n; i++) { for (size_t j = 0; j < got[i].size(); j++) { g_ops++; Out o; o.obj(); o.kstr("op", lists[i][j].op); o.knum("n", lists[i][j].n); o.knum("m", i + 1); o.karr("live"); o.obj(); o.knum("m", i + 1); o.key("d"); show(o, got[i][j]); o.eobj(); o.end(); o.eobj(); emit(o); } }
		return;
	}
	std::vector<size_t> at(n); std::vector<std::string> last(n);
	for (int i : order) {
		auto& op = lists[i][at[i]++]; note(i, op); alarm(60); last[i] = apply(ms[i], op, i + 1); g_ops++;
		Out o; o.obj(); o.kstr("op", op.op); o.knum("n", op.n); o.knum("m", i + 1); o.karr("live"); for (int j = 0; j < n; j++) if (at[j] && (ms[j].m || j == i)) { o.obj(); o.knum("m", j + 1); o.key("d"); show(o, digest(ms[j], last[j])); o.eobj(); } o.end(); o.eobj(); emit(o);
	}
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", "")); std::string mode = arg(argc, argv, "mode", "seq");
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 40), of = argn(argc, argv, "of", 8), per = argn(argc, argv, "per", 40); const char* pf = arg(argc, argv, "paths", nullptr);
	g_segs = mode != "threads"; program(1, 0); program(2, 0); program(1, 2); Machine::setup_linux_syscalls(); { Mach x; apply(x, {"create", 0}, 1); x.m->setup_posix_threads(); } // the handler table is global by design: nobody changes what a number means later
	Machine::install_syscall_handler(HOOK, hook); Machine::install_syscall_handler(WHO, who);
	Rng r(seed * 7919 + shard * 104729 + 53);
	static const std::vector<const char*> OPS = {"start", "slice", "slice", "run", "fast", "accel", "heap", "call", "name", "hook", "fault", "wild", "poke", "sys", "sys", "host", "alloc", "mmap", "threads", "stop", "text", "text", "evict", "reload", "destroy"};
	if (pf) {
		std::ifstream f(pf); std::string line; u64 k = 0; if (!f) return 3;
		while (std::getline(f, line)) {
			if (k++ % of != shard || line.empty()) continue; std::vector<std::vector<Op>> lists(3); std::vector<int> order; std::stringstream ls(line); std::string x;
			while (std::getline(ls, x, ';')) { std::stringstream ws(x); std::map<std::string, std::string> q; std::string t, op; ws >> op; while (ws >> t) { auto e = t.find('='); q[t.substr(0, e)] = t.substr(e + 1); } int m = atoi(q["m"].c_str()); lists[m].push_back({op, atoi(q["n"].c_str())}); order.push_back(m); }
			history(lists, order, false);
		}
	} else for (u64 i = 0; i < count; i++) {
		int n = 2 + r.below(3); std::vector<std::vector<Op>> lists(n); std::vector<int> order; int same = r.below(3), kind = r.below(4); bool quiet = mode == "threads" && r.chance(1, 2); // few operations that order the threads
		 std::vector<std::string> pool; for (int j = 0; j < 6; j++) pool.push_back(r.pick(OPS));
		for (int m = 0; m < n; m++) { bool live = false; for (u64 j = 0; j < per; j++) { Op o; if (!live) o = {"create", (int)((r.chance(2, 3) ? same : r.below(3)) + 3 * (kind ? 0 : 2 * r.below(2)))}; else o = {r.chance(1, 2) ? r.pick(pool) : r.pick(OPS), (int)r.below(30)}; if (o.op == "destroy" && (quiet || r.chance(1, 2))) o.op = "run"; if (quiet && j > 4 && (o.op == "accel" || o.op == "heap" || o.op == "evict" || o.op == "threads")) o.op = "call"; live = o.op == "create" || (live && o.op != "destroy"); lists[m].push_back(o); } for (u64 j = 0; j < per; j++) order.push_back(m); }
		if (r.chance(1, 2)) for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[r.below(j)]);
		else { std::vector<int> left(n, per), o2; while (o2.size() < order.size()) { int m = r.below(n); for (u64 b = 1 + r.below(6); b && left[m]; b--) left[m]--, o2.push_back(m); } order = o2; }
		history(lists, order, mode == "threads");
	}
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
