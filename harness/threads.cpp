// Guest threads: real system calls that create, switch, block, wake and end threads; judged by spec/ThreadsTrace.tla.
// With paths=FILE it replays operation sequences TLC found in MCThreads.tla, otherwise it makes its own.
#include "common.hpp"
#include <libloong/posix/threads.hpp>
#include <algorithm>
#include <fstream>
#include <sstream>
static const u64 CODE = 1024; static const u32 SYSCALL = 0x002B0000, STOPW = 0x00150000; static const int SITES = 24;
static const u64 SZ = 2048, RO = 4, RW = 16, WORDS0 = 8, WORDSN = 18, ARGS = 256; // words at 8..80; those below RW cannot be written
static std::unique_ptr<Machine> M; static std::vector<u8> shadow; static u64 g_ops = 0, g_hist = 0;
static std::vector<u32> code(2 * SITES, STOPW); static u64 counter = 0; static bool over = false;
static u8* A() { return (u8*)M->memory.arena_ptr(); }
static i32 word(u64 at) { i32 v; memcpy(&v, A() + at, 4); return v; }
static i64 small(u64 v) { i64 s = (i64)v; return s >= -0x7FFFFFFF && s < 0x7FFFFFFF ? s : 0x7FFFFFFF; }
static i64 fdigest() { auto& R = M->cpu.registers(); u64 h = 1469598103934665603ull; auto mix = [&](u64 x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) mix(R.getvr(i).du[k]); for (int i = 0; i < 8; i++) mix(R.cf(i)); mix(R.fcsr()); return h % 2000000011ull; }
static void fresh() {
	g_now = "new machine"; auto opts = std::make_shared<MachineOptions>(); M = std::make_unique<Machine>(std::string_view{}, *opts); M->set_options(opts);
	M->memory.allocate_custom_arena(SZ, RO, RW); for (int i = 0; i < SITES; i++) code[2 * i] = SYSCALL;
	M->cpu.init_execute_area(code.data(), CODE, code.size() * 4); M->cpu.reg(3) = 400;
	M->setup_linux_syscalls(); M->setup_posix_threads(); over = false;
	memset(A(), 0, SZ + 64); memcpy(A() + CODE, code.data(), code.size() * 4); for (u64 i = 0; i < WORDSN; i++) { u32 v = 1; memcpy(A() + WORDS0 + 4 * i, &v, 4); }
	shadow.assign(A(), A() + SZ + 64); g_hist++;
	Out o; o.obj(); o.kstr("e", "new"); o.karr("words"); for (u64 i = 0; i < WORDSN; i++) { o.arr(); o.num(WORDS0 + 4 * i); o.num(word(WORDS0 + 4 * i)); o.end(); } o.end(); o.knum("rw", RW); o.knum("max", M->threads().m_max_threads); o.eobj(); emit(o);
}
static void store(u64 at, u32 v) { memcpy(A() + at, &v, 4); memcpy(&shadow[at], &v, 4); Out o; o.obj(); o.kstr("e", "store"); o.knum("at", at); o.knum("v", (i32)v); o.eobj(); emit(o); }
struct Op { std::string op; std::map<std::string, i64> v; };
static void ctx(Out& o, const char* k, const u64* r, i64 pc, i64 fp) { o.key(k); o.first = true; o.obj(); o.karr("r"); for (int i = 1; i < 32; i++) o.num(small(r[i])); o.end(); o.knum("pc", pc); o.knum("fp", fp); o.eobj(); o.first = false; }
static void run(const Op& op, Rng& g) {
	auto& R = M->cpu.registers(); auto& T = M->threads(); auto get = [&](const char* k) { auto it = op.v.find(k); return it == op.v.end() ? 0 : it->second; };
	// the running thread computes something: all registers get new values
	for (int i = 1; i < 32; i++) R.get(i) = g.below(0x7FFFFFF0);
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) R.getvr(i).du[k] = g.next(); for (int i = 0; i < 8; i++) R.set_cf(i, g.below(2)); R.set_fcsr(g.below(4) << 8);
	u64 a[6]; for (auto& x : a) x = g.below(1000000); u64 num = 0; i64 fl = 0;
	int site = g.below(SITES);
	if (op.op == "yield") num = 124; else if (op.op == "gettid") num = 178; else if (op.op == "exit") num = 93; else if (op.op == "exitgroup") num = 94;
	else if (op.op == "wait" || op.op == "wake") {
		bool bits = get("bits"); num = g.chance(1, 2) ? 98 : 422; a[0] = get("at"); a[1] = (op.op == "wait" ? (bits ? 9 : 0) : bits ? 10 : 1) + (g.chance(1, 2) ? 128 : 0); a[2] = op.op == "wait" ? get("val") : get("n"); a[5] = bits ? get("mask") : g.below(3);
	} else if (op.op == "settid") { num = 96; a[0] = get("at"); }
	else if (op.op == "kill") { num = 131; a[1] = get("tid"); a[2] = get("sig"); }
	else if (op.op == "robust") { num = 99; a[1] = 24; }
	else if (op.op == "badfutex") { num = g.chance(1, 2) ? 98 : 422; a[0] = get("at"); a[1] = get("fx"); }
	else if (op.op == "action") { num = 134; i64 h = get("h"); u64 ar[3] = {h >= 0 ? CODE + 8 * (u64)h + 4 : h == -2 ? 1ull : 0ull, get("alt") ? 0x08000000ull : 0, g.next()}; memcpy(A() + ARGS, ar, sizeof ar); memcpy(&shadow[ARGS], ar, sizeof ar); a[0] = get("sig"); a[1] = ARGS; a[2] = 0; }
	else if (op.op == "altstack") { num = 132; u64 ar[3] = {(u64)get("sp"), get("off") ? 2ull : 0ull, (u64)get("sz")}; memcpy(A() + ARGS, ar, sizeof ar); memcpy(&shadow[ARGS], ar, sizeof ar); a[0] = ARGS; a[1] = 0; }
	else if (op.op == "clone") {
		bool c3 = get("c3"); u64 flags = 0x00010F00 | (get("fp") ? 0x00100000 : 0) | (get("fc") ? 0x01000000 : 0) | (get("clear") ? 0x00200000 : 0) | (get("tls") ? 0x00080000 : 0);
		if (c3) { num = 435; u64 half = get("stack") / 2; u64 ar[11] = {flags, g.below(1000), (u64)get("ctid"), (u64)get("ptid"), 17, half, get("stack") - half, get("tls") ? (u64)get("tls") : g.chance(1, 2) ? 0 : g.below(1000), 0, 0, 0};
			memcpy(A() + ARGS, ar, sizeof ar); memcpy(&shadow[ARGS], ar, sizeof ar); a[0] = ARGS; a[1] = get("short") ? 80 : 88; }
		else { num = 220; a[0] = flags; a[1] = get("stack"); a[2] = get("ptid"); a[3] = get("ctid"); a[4] = get("tls"); }
	} else if (op.op == "yieldto") { num = 450; a[0] = get("tid"); } else if (op.op == "unblock") { num = 451; a[0] = get("tid"); }
	else if (op.op == "block") { num = 452; a[0] = get("at"); a[1] = get("mask"); }
	else { dprintf(g_msg_fd, "unknown op %s\n", op.op.c_str()); exit(3); }
	(void)fl;
	for (int i = 0; i < 6; i++) R.get(4 + i) = a[i];
	R.get(11) = num; u64 before[32]; for (int i = 0; i < 32; i++) before[i] = R.get(i); i64 fp0 = fdigest(); int eng = g.below(3);
	char b[160]; snprintf(b, sizeof b, "history %ld op %s tid %d engine %d", (long)g_hist, op.op.c_str(), T.get_tid(), eng); g_now = b;
	M->cpu.jump(CODE + 8 * site); std::string out = "ok"; u64 pc = 0;
	try {
		if (eng == 0) { M->set_max_instructions(UINT64_MAX); bool st = false; for (int i = 0; i < 3 && !st; i++) { u64 p = M->cpu.pc(); bool stop = p >= CODE && p < CODE + 8 * SITES && (p / 4) % 2; M->cpu.step_one(true); st = stop || M->stopped(); } if (!st) out = "limit"; }
		else if (eng == 1) { if (!M->simulate(1000, 0)) out = "limit"; } else M->cpu.simulate_inaccurate(M->cpu.pc());
	} catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = std::string("exception"); }
	pc = M->cpu.pc(); i64 at = -1; bool stopped = false;
	if (pc >= CODE && pc <= CODE + 8 * SITES && pc % 4 == 0) { if ((pc - CODE) % 8 == 4) { stopped = true; at = (pc - CODE - 4) / 8; } else at = i64(pc - CODE) / 8 - 1; }
	g_ops++; if (stopped) over = true;
	Out o; o.obj(); o.kstr("e", "op"); o.kstr("op", op.op); o.knum("eng", eng);
	for (auto& kv : op.v) o.knum(kv.first.c_str(), kv.second);
	ctx(o, "before", before, site, fp0); u64 after[32]; for (int i = 0; i < 32; i++) after[i] = R.get(i); ctx(o, "after", after, at, fdigest());
	o.kstr("out", out); o.knum("stop", stopped); o.knum("cur", T.get_tid());
	o.karr("ready"); for (auto* t : T.suspended_threads()) o.num(t->tid); o.end(); o.karr("blocked"); for (auto* t : T.blocked_threads()) o.num(t->tid); o.end();
	o.karr("alive"); for (int t = 0; t < 400; t++) if (T.get_thread(t)) o.num(t); o.end();
	int stray = 0; o.karr("words"); for (u64 i = 0; i < SZ + 64; i++) if (A()[i] != shadow[i]) { if (i >= WORDS0 && i < WORDS0 + 4 * WORDSN) { u64 w = i & ~3ull; o.arr(); o.num(w); o.num(word(w)); o.end(); memcpy(&shadow[w], A() + w, 4); } else { stray++; shadow[i] = A()[i]; } } o.end();
	o.knum("stray", stray); o.eobj(); emit(o);
	if (out != "ok" && out != "prot" && out != "invalid") over = true;
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 30), per = argn(argc, argv, "per", 120), n = argn(argc, argv, "of", 8); std::string paths = arg(argc, argv, "paths", "");
	u64 want = argn(argc, argv, "live", 5); bool sigs = argn(argc, argv, "sigs", 0);
	Machine::install_syscall_handler(450, [](Machine& m) { if (!m.threads().yield_to(m.sysarg<int>(0), true, 0)) m.set_result(-1); });
	Machine::install_syscall_handler(451, [](Machine& m) { m.threads().unblock(m.sysarg<int>(0)); m.set_result(0); });
	Machine::install_syscall_handler(452, [](Machine& m) { if (!m.threads().block(0, m.sysarg(0), m.sysarg<uint32_t>(1))) m.set_result(-1); });
	Rng g(seed * 1000003 + shard * 7919 + want);
	if (!paths.empty()) {
		std::ifstream f(paths); if (!f) return 3; std::string line; u64 k = 0;
		while (std::getline(f, line)) {
			if (k++ % n != shard) continue;
			fresh(); std::istringstream ls(line); std::string part;
			while (!over && std::getline(ls, part, ';')) {
				std::istringstream ps(part); Op op; ps >> op.op; std::string kv; while (ps >> kv) { auto e = kv.find('='); op.v[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
				if (op.op == "wait") { op.v["val"] = word(op.v["at"]) + (op.v["ok"] ? 0 : 1); op.v["bits"] = op.v["mask"] != 1048575; }
				if (op.op == "wake") op.v["bits"] = op.v["mask"] != 1048575;
				if (op.op == "clone") { op.v["fp"] = op.v["ptid"] != 0; op.v["fc"] = op.v["ctid"] != 0; if (!op.v["ctid"]) op.v["ctid"] = 20; op.v["stack"] = g.below(1 << 30) & ~15ll; op.v["tls"] = g.chance(1, 3) ? 0 : 16 + g.below(1 << 30); op.v["c3"] = g.chance(1, 2); op.v["short"] = 0; }
				run(op, g);
			}
		}
	} else for (u64 i = 0; i < count; i++) {
		fresh(); auto& T = M->threads(); u64 nw = 1 + g.below(4); u64 live = want >= 50 ? want : 2 + g.below(want); int exits = 0;
		auto anyword = [&]() -> i64 { static const std::vector<i64> bad = {0, 1 << 20, 0x7FFFFFF0, 1 << 30}; return g.chance(1, 40) ? g.pick(bad) : g.chance(1, 30) ? 8 + 4 * (i64)g.below(2) : 16 + 4 * (i64)g.below(nw); };
		std::map<i64, i64> acts; unsigned profile = g.below(4); std::string prev; // profile 1: mostly wake and wait in turn; 2: no voluntary switches
		for (u64 k = 0; k < per && !over; k++) {
			u64 alive = T.m_threads.size(); Op op; auto tid = [&]() -> i64 { if (g.chance(1, 12)) return g.chance(1, 2) ? -1 : 1000; std::vector<int> ts; for (auto& p : T.m_threads) ts.push_back(p.first); std::sort(ts.begin(), ts.end()); return g.chance(1, 10) ? (i64)g.below(T.m_thread_counter + 2) : g.pick(ts); };
			unsigned p = g.below(100); bool grow = alive < live && (want >= 50 ? (alive < 48 || g.chance(1, 8)) : g.chance(1, 2));
			if (profile == 1 && !g.chance(1, 12)) p = prev == "wake" ? 10 : 40; if (profile == 2 && p >= 56 && p < 96) p = g.below(56);
			if (g.chance(1, 12)) store(16 + 4 * g.below(nw), g.below(3));
			if (grow || p < 6) { op.op = "clone"; op.v = {{"ptid", anyword()}, {"ctid", anyword()}, {"fp", g.chance(1, 2)}, {"fc", g.chance(1, 2)}, {"clear", g.chance(1, 2)}, {"stack", (i64)(g.below(1 << 30) & ~15ll)}, {"tls", g.chance(1, 3) ? 0 : (i64)(16 + g.below(1 << 30))}, {"c3", g.chance(1, 2)}, {"short", 0}}; if (op.v["c3"] && g.chance(1, 15)) op.v["short"] = 1; }
			else if (p < 36) { i64 at = anyword(); bool known = at >= 8 && at < 80; op.op = "wait"; op.v = {{"at", at}, {"val", (known ? word(at) : 1) + (g.chance(1, profile == 1 ? 20 : 4) ? 1 : 0)}, {"bits", g.chance(1, 3)}, {"mask", (i64)(1 + g.below(7))}}; }
			else if (p < 56) { static const std::vector<i64> ns = {0, 1, 1, 1, 2, 3, 0x7FFFFFFF}; op.op = "wake"; op.v = {{"at", anyword()}, {"n", g.pick(ns)}, {"bits", g.chance(1, 3)}, {"mask", (i64)(1 + g.below(7))}}; }
			else if (p < 68) op.op = "yield"; else if (p < 71) op.op = "gettid"; else if (p < 76) { op.op = "settid"; op.v = {{"at", g.chance(1, 3) ? 0 : anyword()}}; }
			else if (p < 82) { if (T.get_tid() == 0 && !g.chance(1, 10)) op.op = "yield"; else op.op = "exit"; } else if (p < 90) { op.op = "kill"; i64 t = tid(); static const std::vector<i64> sg = {0, 9, 15, 11}; op.v = {{"tid", t}, {"sig", t == 0 && !g.chance(1, 10) ? 0 : g.pick(sg)}}; }
			else if (p < 93) { op.op = "yieldto"; op.v = {{"tid", tid()}}; } else if (p < 96) { op.op = "unblock"; op.v = {{"tid", tid()}}; }
			else if (p < 99) { op.op = "block"; op.v = {{"at", 16 + 4 * (i64)g.below(nw)}, {"mask", (i64)(1 + g.below(7))}}; } else if (exits++ > 2) op.op = "exitgroup"; else op.op = "yield";
			if (sigs ? g.chance(1, 3) : g.chance(1, 25)) {
				static const std::vector<i64> sg = {1, 2, 9, 15, 31, 32, 33, 63, 64}; unsigned q = g.below(10); op = Op{};
				if (q < 3) { op.op = "action"; op.v = {{"sig", g.pick(sg)}, {"h", g.chance(1, 4) ? -1 - (i64)g.below(2) : (i64)g.below(SITES)}, {"alt", g.chance(1, 2)}}; acts[op.v["sig"]] = op.v["h"]; }
				else if (q < 5) { op.op = "altstack"; op.v = {{"sp", (i64)(16 * g.below(1 << 24))}, {"sz", g.chance(1, 8) ? 0 : (i64)(16 * g.below(1 << 16))}, {"off", g.chance(1, 8)}}; }
				else if (q < 9) { i64 sig = g.chance(1, 12) ? g.pick(std::vector<i64>{65, 66, -1, 128, 1000}) : g.pick(sg); op.op = "kill"; op.v = {{"tid", g.chance(1, 12) ? 1000 : T.get_tid()}, {"sig", sig}};
					if (sig >= 1 && sig <= 64 && !acts.count(sig) && T.get_tid() == 0 && !g.chance(1, 20)) op.v["sig"] = 0; }
				else if (g.chance(1, 2)) op.op = "robust"; else { static const std::vector<i64> fx = {2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 130, 136}; op.op = "badfutex"; op.v = {{"at", anyword()}, {"fx", g.pick(fx)}}; }
			}
			// a handled signal for another thread is left open
			if (op.op == "kill" && op.v["tid"] != T.get_tid() && acts.count(op.v["sig"]) && acts[op.v["sig"]] >= 0 && T.get_thread(op.v["tid"])) op.v["sig"] = 0;
			if (op.op == "action" && op.v["h"] == -1) acts.erase(op.v["sig"]);
			prev = op.op; run(op, g);
		}
	}
	fclose(g_out);
	dprintf(g_msg_fd, "DRIVER histories=%lu\nDRIVER operations=%lu\n", (long)g_hist, (long)g_ops);
}
