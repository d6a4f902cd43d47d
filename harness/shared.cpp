// Machines that create, share, accelerate and release execute segments: near-identical programs, some with
// colliding checksums, one machine after the other or on several threads. Judged by spec/SharedTrace.tla.
// paths=FILE of=N shard=I replays the model's histories; mode=threads runs concurrently; otherwise random ones.
#include "elfgen.hpp"
#include <atomic>
#include <fstream>
#include <sstream>
#include <thread>
static u64 g_ops = 0;
static const u32 RET = 0x4C000020, STOP = 0x00150000, NOP = 0x03400000;
static u32 crc32c_of(const std::vector<u32>& w) { u32 c = ~0u; for (size_t i = 0; i < 4 * w.size(); i++) { c ^= ((const u8*)w.data())[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78 & -(c & 1)); } return ~c; }
// the last word such that the checksum is the wanted one: the checksum is affine in it
static void collide(std::vector<u32>& w, u32 want) {
	w.back() = 0; u32 base = crc32c_of(w), rows[32], in[32]; for (int i = 0; i < 32; i++) { w.back() = 1u << i; rows[i] = crc32c_of(w) ^ base; in[i] = 1u << i; }
	u32 need = want ^ base, x = 0; std::vector<bool> used(32);
	for (int b = 31; b >= 0; b--) { int p = -1; for (int i = 0; i < 32; i++) if (!used[i] && (rows[i] >> b & 1)) { p = i; break; } if (p < 0) continue; used[p] = true; for (int i = 0; i < 32; i++) if (i != p && (rows[i] >> b & 1)) rows[i] ^= rows[p], in[i] ^= in[p]; if (need >> b & 1) need ^= rows[p], x ^= in[p]; }
	w.back() = x; if (crc32c_of(w) != want) abort();
}
struct SegD { u64 at; int code; };
struct Prog { std::vector<SegD> segs; int k, data; std::vector<u8> file; };
static std::vector<std::vector<u32>> g_codes; static std::vector<Prog> g_progs;
static int code_id(const std::vector<u32>& w) { for (size_t i = 0; i < g_codes.size(); i++) if (g_codes[i] == w) return i; g_codes.push_back(w); return g_codes.size() - 1; }
static u32 bl(i64 d) { u32 o = (u32)(d / 4); return 0x54000000 | (o & 0xffff) << 10 | ((o >> 16) & 0x3ff); }
static const int SYMWORD = 12;
static std::vector<u32> body(int k) { // a0 = (length of the string at 0x20010, or 100) + word at 0x20000 + k
	std::vector<u32> c; c.push_back(0x14000000u | 0x20u << 5 | 12); /* lu12i.w t0, 0x20 */ c.push_back(0x28800000u | 12u << 5 | 23); /* ld.w s0, t0, 0 */ c.push_back(0x02C00000u | 16u << 10 | 12u << 5 | 4); /* addi.d a0, t0, 16 */
	c.push_back(bl((SYMWORD - 3) * 4)); c.push_back(0x00108000u | 23u << 10 | 4u << 5 | 4); c.push_back(0x02C00000u | (u32)k << 10 | 4u << 5 | 4); c.push_back(STOP);
	while ((int)c.size() < SYMWORD) c.push_back(NOP); c.push_back(0x03800000u | 100u << 10 | 4); c.push_back(RET); c.push_back(NOP); c.push_back(NOP); return c; }
static void program(std::vector<std::pair<u64, std::vector<u32>>> segs, int k, int data) {
	Rng r(7); Prog p; p.k = k; p.data = data; ElfSpec e; e.entry = segs[0].first;
	for (auto& s : segs) { p.segs.push_back({s.first, code_id(s.second)}); Seg g{}; g.type = 1; g.flags = 5; g.vaddr = s.first; g.data.resize(4 * s.second.size()); memcpy(g.data.data(), s.second.data(), g.data.size()); g.filesz = g.memsz = g.data.size(); e.segs.push_back(g); }
	Seg d{}; d.type = 1; d.flags = 6; d.vaddr = 0x20000; d.data.resize(64); memcpy(d.data.data(), &data, 4); memcpy(d.data.data() + 16, "abc", 4); d.filesz = d.memsz = 64; e.segs.push_back(d);
	e.syms.push_back({"__strlen_lsx", 0x12, segs[0].first + 4 * SYMWORD, 8}); p.file = e.build(r); g_progs.push_back(p);
}
static void programs() {
	auto a = body(1), b = body(2), c = body(3); collide(b, crc32c_of(a)); collide(c, crc32c_of(a)); auto lng = a; lng.push_back(NOP); lng.push_back(NOP); auto lngc = a; lngc.push_back(NOP); lngc.push_back(0); collide(lngc, crc32c_of(a));
	std::vector<u32> second = {0x03800000u | 55u << 10 | 4, RET, NOP};
	program({{0x10000, a}}, 1, 1000); program({{0x10000, b}}, 2, 1000); program({{0x10000, c}}, 3, 1000); program({{0x14000, a}}, 1, 1000); program({{0x10000, a}}, 1, 2000);
	program({{0x10000, a}, {0x18000, second}}, 1, 3000); program({{0x10000, lng}}, 1, 1000); program({{0x10000, lngc}}, 1, 1000); program({{0x10000, b}, {0x18000, second}}, 2, 1000);
}
struct Mach { std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> opt; int p = 0, q = 0; bool sh = true, acc = false, ev = false; int ar = 0; };
static void create(Mach& x, int p, bool sh, int ar) {
	x = Mach(); x.p = x.q = p; x.sh = sh; x.ar = ar; x.opt = std::make_shared<MachineOptions>(); x.opt->brk_size = 4096; x.opt->stack_size = 4096; x.opt->memory_max = 0x40000 + 0x10000 * ar; x.opt->use_shared_execute_segments = sh;
	auto& f = g_progs[p].file; x.m = std::make_unique<Machine>(std::string_view((const char*)f.data(), f.size()), *x.opt); x.m->set_options(x.opt);
}
static void reload(Mach& x, int q) { auto& c = g_codes[g_progs[q].segs[0].code]; x.m->cpu.init_execute_area(c.data(), g_progs[q].segs[0].at, 4 * c.size()); x.q = q; x.ev = false; x.acc = false; }
// resetting the memory drops the execute segments and zeroes everything; the contents are put back
static bool wiped(Machine& m) {
	auto& mem = m.memory; u64 from = mem.start_address(), n = mem.arena_size() - from; std::vector<u8> was(n); auto* p = (u8*)mem.memarray<u8>(from, n); memcpy(was.data(), p, n);
	mem.reset(); bool zero = true; for (u64 i = 0; i < n; i++) zero &= p[i] == 0; memcpy(p, was.data(), n); return zero;
}
struct Res { std::string out = "ok"; u64 v = 0; };
static Res run(Mach& x, bool fast) {
	Res z; auto& m = *x.m; u64 pc = g_progs[x.q].segs[0].at; m.cpu.reg(REG_A0) = 0; m.cpu.jump(pc);
	try { if (fast) m.cpu.simulate_inaccurate(pc); else m.simulate(1000); z.v = m.cpu.reg(REG_A0); } catch (const MachineException& e) { z.out = exname(e.type()); } catch (const std::exception& e) { z.out = "exception"; }
	return z;
}
struct Ids { std::vector<std::pair<std::weak_ptr<DecodedExecuteSegment>, int>> v; int next = 1;
	int of(const std::shared_ptr<DecodedExecuteSegment>& s) { if (!s || s->empty()) return 0; for (auto& e : v) if (e.first.lock() == s) return e.second; v.push_back({s, next}); return next++; }
	std::vector<int> alive() { std::vector<int> a; std::vector<std::pair<std::weak_ptr<DecodedExecuteSegment>, int>> k; for (auto& e : v) if (!e.first.expired()) { a.push_back(e.second); k.push_back(e); } v = k; return a; } };
static void progs_event() {
	Out o; o.obj(); o.kstr("op", "programs"); o.karr("progs"); for (auto& p : g_progs) { o.obj(); o.knum("k", p.k); o.knum("data", p.data); o.karr("segs"); for (auto& s : p.segs) { o.obj(); o.knum("at", s.at); o.knum("code", s.code); o.eobj(); } o.end(); o.eobj(); } o.end(); o.eobj(); emit(o);
}
static void observe(std::vector<Mach>& ms, Ids& ids, Rng& r, const char* op, int m, int arg, const std::string& out) {
	Out o; o.obj(); o.kstr("op", op); o.knum("m", m); o.knum("arg", arg); o.kstr("out", out); o.karr("live");
	for (size_t i = 0; i < ms.size(); i++) { auto& x = ms[i]; if (!x.m) continue; o.obj(); o.knum("m", i); o.knum("p", x.p); o.knum("q", x.q); o.kbool("sh", x.sh); o.kbool("acc", x.acc); o.kbool("ev", x.ev); o.knum("ar", x.ar); o.karr("ids");
		for (auto& s : g_progs[x.q].segs) o.num(ids.of(x.m->memory.exec_segment_for(s.at))); o.end(); Res z = run(x, r.chance(1, 2)); o.kstr("out", z.out); o.knum("v", z.v < 1000000 ? z.v : 1000001); o.eobj(); }
	o.end(); o.karr("alive"); for (int a : ids.alive()) o.num(a); o.end(); o.eobj(); emit(o); g_ops++;
}
static void apply(std::vector<Mach>& ms, Ids& ids, Rng& r, const std::string& op, int m, int p, bool sh, int ar) {
	char t[100]; snprintf(t, sizeof t, "%s machine %d program %d sharing %d", op.c_str(), m, p, (int)sh); g_now = t; alarm(60); std::string out = "ok";
	try {
		if (op == "create") create(ms[m], p, sh, ar);
		else if (op == "accel") { ms[m].m->setup_accelerated_syscalls(); ms[m].acc = true; }
		else if (op == "evict") { if (r.chance(1, 2)) ms[m].m->memory.evict_execute_segments(); else if (!wiped(*ms[m].m)) out = "memory is not zero after a reset"; ms[m].ev = true; ms[m].acc = false; }
		else if (op == "reload") reload(ms[m], p);
		else if (op == "destroy") ms[m] = Mach();
	} catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = "exception"; }
	observe(ms, ids, r, op.c_str(), m, p, out);
}
static std::atomic<u64> g_tick{1};
struct Life { int p; bool sh, acc; int ar; u64 born0, born1, mid, dead0; std::vector<u64> ids; std::vector<Res> plain, accd; };
static void threads(Rng& r, int nt, int per) {
	std::vector<std::vector<Life>> lives(nt); std::vector<std::vector<std::weak_ptr<DecodedExecuteSegment>>> weak(nt); std::vector<std::thread> ts; u64 base = r.next(); std::vector<int> pool; int np = 2 + r.below(3); for (int i = 0; i < np; i++) pool.push_back(r.below(g_progs.size())); bool sharing = r.chance(3, 4);
	for (int t = 0; t < nt; t++) ts.emplace_back([&, t] {
		Rng q(base + t * 977); struct Held { Mach x; Life l; }; std::vector<std::unique_ptr<Held>> held;
		auto tick = [] { return g_tick.fetch_add(1, std::memory_order_relaxed); };
		auto drop = [&](size_t i) { auto& h = *held[i]; if (!h.l.acc) h.l.mid = tick(); for (int k = 0; k < 2; k++) (h.l.acc ? h.l.accd : h.l.plain).push_back(run(h.x, k)); h.l.dead0 = tick(); h.x = Mach(); lives[t].push_back(h.l); held.erase(held.begin() + i); };
		for (int i = 0; i < per; i++) {
			auto h = std::make_unique<Held>(); auto& l = h->l; l.p = q.pick(pool); l.sh = sharing || q.chance(1, 2); l.acc = false; l.ar = q.chance(1, 8); l.born0 = tick(); create(h->x, l.p, l.sh, l.ar); l.born1 = tick();
			for (auto& s : g_progs[l.p].segs) { auto e = h->x.m->memory.exec_segment_for(s.at); l.ids.push_back((u64)e.get()); weak[t].push_back(e); }
			l.plain.push_back(run(h->x, q.chance(1, 2)));
			if (q.chance(1, 4)) { l.mid = tick(); h->x.m->setup_accelerated_syscalls(); l.acc = true; l.accd.push_back(run(h->x, q.chance(1, 2))); }
			held.push_back(std::move(h)); while (held.size() > 2 || (!held.empty() && q.chance(1, 2))) drop(q.below(held.size()));
		}
		while (!held.empty()) drop(0);
	});
	for (auto& t : ts) t.join();
	u64 left = 0; for (auto& w : weak) for (auto& e : w) left += !e.expired();
	std::map<u64, int> ptr; Out o; o.obj(); o.kstr("op", "threads"); o.knum("left", left); o.karr("lives"); u64 t0 = 0; for (auto& ls : lives) for (auto& l : ls) t0 = t0 ? std::min(t0, l.born0) : l.born0;
	for (auto& ls : lives) for (auto& l : ls) { g_ops++; o.obj(); o.knum("p", l.p); o.kbool("sh", l.sh); o.kbool("acc", l.acc); o.knum("ar", l.ar); o.knum("born1", l.born1 - t0); o.knum("mid", l.mid - t0); o.karr("ids"); for (u64 x : l.ids) { if (!ptr.count(x)) ptr[x] = ptr.size() + 1; o.num(ptr[x]); } o.end();
		auto rs = [&](const char* k, std::vector<Res>& v) { o.karr(k); for (auto& z : v) o.num(z.out == "ok" && z.v < 1000000 ? (i64)z.v : -1); o.end(); }; rs("plain", l.plain); rs("accd", l.accd); o.eobj(); }
	o.end(); o.eobj(); emit(o);
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", "")); std::string mode = arg(argc, argv, "mode", "seq");
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 40), of = argn(argc, argv, "of", 8), per = argn(argc, argv, "per", 40), nt = argn(argc, argv, "threads", 4);
	programs(); progs_event(); Rng r(seed * 7919 + shard * 104729 + 47); const char* pf = arg(argc, argv, "paths", nullptr);
	if (mode == "threads") { for (u64 i = 0; i < count; i++) { char t[60]; snprintf(t, sizeof t, "round %d of threads", (int)i); g_now = t; alarm(120); threads(r, nt, per); } }
	else if (pf) {
		std::ifstream f(pf); std::string line; u64 k = 0; if (!f) return 3;
		while (std::getline(f, line)) {
			if (k++ % of != shard || line.empty()) continue; std::vector<Mach> ms(4); Ids ids; std::stringstream ls(line); std::string x;
			while (std::getline(ls, x, ';')) { std::stringstream ws(x); std::map<std::string, std::string> q; std::string t, op; ws >> op; while (ws >> t) { auto e = t.find('='); q[t.substr(0, e)] = t.substr(e + 1); } apply(ms, ids, r, op, atoi(q["m"].c_str()), atoi(q["p"].c_str()), q["sh"] == "1", atoi(q["ar"].c_str())); }
			ms.clear(); ms.resize(4); observe(ms, ids, r, "end", 0, 0, "ok");
		}
	} else for (u64 i = 0; i < count; i++) {
		std::vector<Mach> ms(2 + r.below(5)); Ids ids; std::vector<int> pool; int np = 1 + r.below(4); for (int j = 0; j < np; j++) pool.push_back(r.below(g_progs.size()));
		for (u64 j = 0; j < per; j++) {
			int m = r.below(ms.size()); auto& x = ms[m];
			if (!x.m) apply(ms, ids, r, "create", m, r.pick(pool), r.chance(5, 6), r.chance(1, 6));
			else switch (r.below(6)) { case 0: case 1: apply(ms, ids, r, "destroy", m, 0, 0, 0); break; case 2: if (!x.ev) apply(ms, ids, r, "accel", m, 0, 0, 0); break; case 3: apply(ms, ids, r, "evict", m, 0, 0, 0); break;
				case 4: if (x.ev && x.p != 3) { int q = r.below(3); apply(ms, ids, r, "reload", m, q, 0, 0); } break; }
		}
		ms.clear(); observe(ms, ids, r, "end", 0, 0, "ok");
	}
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
