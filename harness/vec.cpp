// Executes generated floating-point and vector instructions on the real emulator with three engines
// (single-stepping, counting, non-counting) and records what each did; mode map records which of
// all 2^22 instruction prefixes an engine executes and which it reports as illegal.
// The trace is judged by spec/VecTrace.tla; this program knows nothing about what an instruction
// should do.
#include "common.hpp"
#include "isa.hpp"
#include <cmath>
static const u64 RO = 0x10000, RW = 0x100000, END = 0x200000;
static const u32 STOP = 0x00150000;
struct Win { u64 base, len; };
static const std::vector<Win> WINS = {{1048448, 384}, {2097024, 128}};
struct V32 { u8 b[32]; bool operator==(const V32& o) const { return !memcmp(b, o.b, 32); } };
struct Snap { u64 r[32]; V32 v[32]; u8 cc[8]; };
struct Eng {
	const char* name; std::unique_ptr<Machine> m;
	void load(Snap& s) { auto& R = m->cpu.registers(); for (int i = 0; i < 32; i++) { s.r[i] = R.get(i); memcpy(s.v[i].b, &R.getvr(i), 32); } for (int i = 0; i < 8; i++) s.cc[i] = R.cf(i); }
	void store(const Snap& s) { auto& R = m->cpu.registers(); for (int i = 0; i < 32; i++) { R.get(i) = s.r[i]; memcpy((void*)&R.getvr(i), s.v[i].b, 32); } for (int i = 0; i < 8; i++) R.set_cf(i, s.cc[i]); }
	u8* arena() { return (u8*)m->memory.arena_ptr(); }
};
static Eng engs[3];
static std::vector<u32> code_words; static u64 code_base, g_runs = 0;
static std::shared_ptr<MachineOptions> opts = std::make_shared<MachineOptions>();
static std::vector<u8> shadow;
struct Setup { std::vector<std::pair<u32, V32>> v; std::vector<std::pair<u32, u64>> r; std::vector<std::pair<u32, u8>> c, m; };
struct Obs { std::string out; u64 fa = 0; Snap s; std::vector<u8> win; i64 stray = 0; };

static void install_code(u64 base) {
	static const char* names[3] = {"slow", "fast", "inacc"};
	code_base = base; g_now = "installing code";
	Snap z; memset(&z, 0, sizeof z); std::vector<u8> w;
	for (int e = 0; e < 3; e++) {
		engs[e].name = names[e];
		Snap s = z; std::vector<u8> win;
		if (engs[e].m) { engs[e].load(s); for (auto& x : WINS) win.insert(win.end(), engs[e].arena() + x.base, engs[e].arena() + x.base + x.len); }
		engs[e].m = std::make_unique<Machine>(std::string_view{}, *opts);
		auto& m = *engs[e].m; m.set_options(opts);
		m.memory.allocate_custom_arena(END, RO, RW);
		if (e == 0) m.cpu.init_slowpath_execute_area(code_words.data(), base, code_words.size() * 4);
		else { m.memory.copy_into_arena_unsafe(base, code_words.data(), code_words.size() * 4); m.cpu.init_execute_area(code_words.data(), base, code_words.size() * 4); }
		engs[e].store(s); size_t p = 0;
		if (!win.empty()) for (auto& x : WINS) { memcpy(engs[e].arena() + x.base, win.data() + p, x.len); p += x.len; }
	}
	shadow.clear();
}
static std::vector<u8> grab(Eng& e) { std::vector<u8> v; for (auto& w : WINS) v.insert(v.end(), e.arena() + w.base, e.arena() + w.base + w.len); return v; }
static void put(Eng& e, const std::vector<u8>& v) { size_t p = 0; for (auto& w : WINS) { memcpy(e.arena() + w.base, v.data() + p, w.len); p += w.len; } }
static i64 stray_bytes(Eng& e) {
	u64 at = 0; i64 n = 0;
	auto cmp = [&](u64 a, u64 b) { if (b > a && memcmp(e.arena() + a, shadow.data() + a, b - a)) for (u64 i = a; i < b; i++) if (e.arena()[i] != shadow[i]) { n++; e.arena()[i] = shadow[i]; } };
	for (auto& w : WINS) { cmp(at, w.base); at = w.base + w.len; }
	cmp(at, END);
	if (n == 0 && memcmp(e.arena() + END, shadow.data() + END, 64)) memcpy(e.arena() + END, shadow.data() + END, 64); // slack behind the arena
	return n;
}
static void bytes32(Out& o, const V32& v) { o.sep(); o.s += '['; for (int i = 0; i < 32; i++) { if (i) o.s += ','; o.s += std::to_string(v.b[i]); } o.s += ']'; o.first = false; }
static void apply(Snap& s, const Setup& su) { for (auto& p : su.v) s.v[p.first] = p.second; for (auto& p : su.r) s.r[p.first] = p.second; for (auto& p : su.c) s.cc[p.first] = p.second; }
// executes the straight line of n words at pc, which a STOP follows
static void execute(int e, u64 pc, size_t n, Obs& o, std::vector<Snap>* trail) {
	Eng& E = engs[e]; auto& m = *E.m; E.m->cpu.registers().pc = pc;
	{ char buf[160]; snprintf(buf, sizeof buf, "engine %s run %lu word 0x%08x of %lu", E.name, (long)g_runs, code_words[(pc - code_base) / 4], (long)n); g_now = buf; }
	auto body = [&] {
		try {
			if (e == 0) {
				m.set_max_instructions(UINT64_MAX); o.out = "lost";
				for (size_t i = 0; i <= n; i++) {
					m.cpu.step_one(true);
					if (trail) { Snap s; E.load(s); trail->push_back(s); }
					if (i == n) o.out = "stop";
				}
			} else if (e == 1) { m.set_instruction_counter(0); o.out = m.simulate(n + 1000, 0) ? "stop" : "limit"; }
			else { m.cpu.simulate_inaccurate(pc); o.out = "stop"; }
		} catch (const MachineException& ex) { o.out = exname(ex.type()); if (o.out == "prot") o.fa = ex.data(); }
		catch (const std::exception&) { o.out = "hostexc"; }
	};
	WITH_TRAP(body(), { o.out = "hosttrap"; });
	E.load(o.s); o.win = grab(E);
}
static void run(u64 pc, size_t n, const Setup& su) {
	Snap s0; engs[0].load(s0); apply(s0, su);
	std::vector<u8> w0 = grab(engs[0]); for (auto& p : su.m) w0[p.first] = p.second;
	if (shadow.empty()) shadow.assign(engs[1].arena(), engs[1].arena() + END + 64);
	std::vector<Obs> obs; std::vector<std::string> names;
	for (int e = 0; e < 3; e++) {
		engs[e].store(s0); put(engs[e], w0);
		Obs o; execute(e, pc, n, o, nullptr); o.stray = stray_bytes(engs[e]);
		bool same = false;
		for (size_t i = 0; i < obs.size() && !same; i++) { Obs& b = obs[i];
			if (b.out == o.out && b.fa == o.fa && !memcmp(&b.s, &o.s, sizeof o.s) && b.win == o.win && b.stray == o.stray) { names[i] += std::string("+") + engs[e].name; same = true; } }
		if (!same) { obs.push_back(o); names.push_back(engs[e].name); }
	}
	Out o; o.obj(); o.kstr("e", "seq");
	o.karr("ws"); for (size_t i = 0; i < n; i++) o.num((i32)code_words[(pc - code_base) / 4 + i]); o.end();
	o.karr("vset"); for (auto& p : su.v) { o.arr(); o.num(p.first + 1); bytes32(o, p.second); o.end(); } o.end();
	o.karr("rset"); for (auto& p : su.r) { o.arr(); o.num(p.first); o.bytes(p.second); o.end(); } o.end();
	o.karr("cset"); for (auto& p : su.c) { o.arr(); o.num(p.first + 1); o.num(p.second); o.end(); } o.end();
	o.karr("mset"); for (auto& p : su.m) { o.arr(); o.num(p.first + 1); o.num(p.second); o.end(); } o.end();
	o.karr("obs");
	for (size_t i = 0; i < obs.size(); i++) { Obs& b = obs[i];
		o.obj(); o.kstr("eng", names[i]); o.kstr("out", b.out); o.kbytes("fa", b.fa);
		o.karr("v"); for (int k = 0; k < 32; k++) if (!(b.s.v[k] == s0.v[k])) { o.arr(); o.num(k + 1); bytes32(o, b.s.v[k]); o.end(); } o.end();
		o.karr("r"); for (int k = 1; k < 32; k++) if (b.s.r[k] != s0.r[k]) { o.arr(); o.num(k); o.bytes(b.s.r[k]); o.end(); } o.end();
		o.knum("r0", b.s.r[0] != 0);
		o.karr("cc"); for (int k = 0; k < 8; k++) o.num(b.s.cc[k]); o.end();
		o.karr("m"); for (size_t k = 0; k < b.win.size(); k++) if (b.win[k] != w0[k]) { o.arr(); o.num(k + 1); o.num(b.win[k]); o.end(); } o.end();
		o.knum("stray", b.stray); o.eobj();
	}
	o.end(); o.eobj(); emit(o); g_runs++;
	Snap s1 = obs[0].s; s1.r[0] = 0;
	for (int e = 0; e < 3; e++) { engs[e].store(s1); put(engs[e], obs[0].win); }
}

//------------------------------------------------------------------ operands
static u64 fbits(Rng& g, bool dbl) { // a floating-point value whose arithmetic is special
	int P = dbl ? 52 : 23, bias = dbl ? 1023 : 127, emax = dbl ? 2047 : 255;
	auto mk = [&](u64 s, u64 e, u64 f) { return s << (dbl ? 63 : 31) | e << P | (f & ((1ull << P) - 1)); };
	u64 s = g.below(2), f;
	switch (g.below(6)) {
	case 0: f = 0; break;
	case 1: f = (1ull << P) - 1; break;
	case 2: f = 1ull << g.below(P); break;
	case 3: f = (1ull << g.below(P)) | (1ull << g.below(P)) | g.below(2); break;
	case 4: f = ~(1ull << g.below(P)); break;
	default: f = g.next();
	}
	switch (g.below(16)) {
	case 0: return mk(s, 0, 0);
	case 1: return mk(s, emax, 0);
	case 2: return mk(s, emax, f | 1);
	case 3: case 4: return mk(s, 0, f);                                  // subnormal
	case 5: return mk(s, 1 + g.below(3), f);
	case 6: return mk(s, emax - 1 - g.below(3), f);                      // about to overflow
	case 7: return mk(s, g.below(emax), f);
	case 8: return mk(s, bias + (int)g.below(3) - 1, g.below(3));
	case 9: return mk(s, bias / 2 + g.below(8), f);                      // the product is near the smallest values
	default: return mk(s, bias - P - 4 + g.below(2 * P + 8), f);         // overlapping mantissas
	}
}
static u64 ival(Rng& g) { // integers around the precisions and ranges of the formats
	static const std::vector<int> at = {24, 25, 31, 32, 52, 53, 54, 63};
	u64 v;
	switch (g.pick(std::vector<int>{0, 1, 1, 1, 2, 3})) {
	case 0: v = (1ull << g.pick(at)) + (u64)((i64)g.below(9) - 4); break;
	case 1: { int sh = (int)(g.chance(1, 2) ? g.below(40) : 30 + g.below(10)); v = ((1ull << 24) | g.below(1 << 24) | 1) << sh; if (g.chance(1, 3)) v += (1ull << sh) >> 1; if (g.chance(2, 3)) v += (u64)((i64)g.below(3) - 1); break; }
	case 2: v = g.next() >> g.below(64); break;
	default: v = g.word();
	}
	return g.chance(1, 2) ? v : 0 - v;
}
static double dof(u64 b) { double d; memcpy(&d, &b, 8); return d; } static u64 bof(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float sof(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; } static u64 bofs(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static u64 integral(Rng& g, bool dbl) { // floating-point values around integers and the ends of the integer ranges
	static const std::vector<int> at = {0, 1, 24, 31, 32, 53, 62, 63, 64};
	double v = std::ldexp(1.0, g.pick(at)); if (g.chance(1, 3)) v = (double)(g.next() >> g.below(63));
	u64 b = dbl ? bof(v) : bofs((float)v); b += (u64)((i64)g.below(5) - 2);
	if (g.chance(1, 4)) b = dbl ? bof(v / 2 + 0.5) : bofs((float)(v / 2 + 0.5));
	if (g.chance(1, 2)) b ^= dbl ? 1ull << 63 : 1ull << 31;
	return b;
}
static void setlane(V32& v, int n, int i, u64 x) { memcpy(v.b + n * i, &x, n); }
static u64 lane(const V32& v, int n, int i) { u64 x = 0; memcpy(&x, v.b + n * i, n); return x; }
static V32 intvec(Rng& g, int n) { V32 v; for (int i = 0; i < 32 / n; i++) { u64 x = g.word(); if (n < 8 && g.chance(1, 4)) { static const std::vector<u64> sp = {0, 1, ~0ull}; x = g.chance(1, 3) ? 1ull << (8 * n - 1) : g.chance(1, 2) ? (1ull << (8 * n - 1)) - 1 : g.pick(sp); } setlane(v, n, i, x); } return v; }
static bool is_fp(const std::string& s) { return s.size() > 1 && (s[0] == 'f' || s.rfind("vf", 0) == 0 || s.rfind("xvf", 0) == 0) && s != "vfrstpi.b"; }
static bool ends(const std::string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && !s.compare(s.size() - n, n, e); }
// operands for one instruction: j, k, a (the third source) and d
static void operands(Rng& g, const std::string& n, V32& j, V32& k, V32& a, V32& d) {
	if (is_fp(n) && n.find("ftint") != std::string::npos) { bool db = ends(n, ".d"); int q = db ? 8 : 4; for (int i = 0; i < 32 / q; i++) setlane(j, q, i, g.chance(1, 3) ? fbits(g, db) : integral(g, db)); }
	else if (n.rfind("ffint", 0) == 0) { j = intvec(g, 8); bool w = ends(n, ".w"); setlane(j, w ? 4 : 8, 0, ival(g)); }
	else if (n.rfind("fcvt", 0) == 0) {
		bool db = ends(n, ".d"); j = intvec(g, 8); u64 x = fbits(g, db);
		if (db && g.chance(2, 3)) { // near the single precision grid, normal or subnormal
			u64 m = g.next() >> 41; x = bof(std::ldexp((double)m + (g.chance(1, 2) ? 0.5 : 0), (int)g.below(300) - 170)); if (g.chance(1, 2)) x += (u64)((i64)g.below(3) - 1); if (g.chance(1, 2)) x ^= 1ull << 63; }
		setlane(j, db ? 8 : 4, 0, x); }
	else if (is_fp(n)) {
		bool db = ends(n, ".d"); int q = db ? 8 : 4, P = db ? 52 : 23; bool fma = n.find("madd") != std::string::npos || n.find("msub") != std::string::npos;
		u64 sign = db ? 1ull << 63 : 1ull << 31;
		for (int i = 0; i < 32 / q; i++) {
			u64 x = fbits(g, db), y = fbits(g, db), z = fbits(g, db);
			switch (g.below(8)) {
			case 0: y = x; break;
			case 1: y = x ^ sign; break;
			case 2: y = (x ^ (g.below(2) ? sign : 0)) + (u64)((i64)g.below(5) - 2); break;
			case 3: { u64 e = (x >> P) & (db ? 2047 : 255), sh = P - 2 + g.below(6); if (e > sh) y = (y & (sign | ((1ull << P) - 1))) | (e - sh) << P; break; } // a tie, or nearly
			default: break;
			}
			if (fma && g.chance(2, 3)) { // the addend nearly cancels the product
				if (g.chance(1, 2)) { int e = (db ? 1023 : 127) - 8; x = (x & (sign | ((1ull << P) - 1))) | (u64)(e + g.below(16)) << P; y = (y & (sign | ((1ull << P) - 1))) | (u64)(e + g.below(16)) << P; }
				z = db ? bof(-(dof(x) * dof(y))) : bofs(-(sof(x) * sof(y))); if (g.chance(1, 2)) z ^= sign; if (g.chance(1, 4)) z += (u64)((i64)g.below(3) - 1);
			}
			if (g.chance(1, 2) && (n.find("fmax") == 0 || n.find("fmin") == 0 || n.find("fcmp") != std::string::npos)) { static const std::vector<u64> sp = {0, 1, 2}; if (g.chance(1, 4)) { x = g.pick(sp); if (g.chance(1, 2)) x |= sign; } }
			setlane(j, q, i, x); setlane(k, q, i, y); setlane(a, q, i, z);
		}
		d = intvec(g, q);
	} else {
		int q = ends(n, ".b") || ends(n, ".bu") ? 1 : ends(n, ".h") || ends(n, ".hu") ? 2 : ends(n, ".w") || ends(n, ".wu") ? 4 : 8;
		j = intvec(g, q); k = intvec(g, q); a = intvec(g, q); d = intvec(g, q);
		for (int i = 0; i < 32 / q; i++) if (g.chance(1, 5)) setlane(k, q, i, lane(j, q, i) + (g.chance(1, 2) ? 0 : g.below(3) - 1));
		if (n.find("seqi") != std::string::npos) for (int i = 0; i < 32 / q; i++) if (g.chance(1, 2)) setlane(j, q, i, g.below(32) - 16);
		if (n.find("shuf") != std::string::npos) for (int i = 0; i < 32; i++) if (g.chance(5, 6)) a.b[i] = g.below(32);
		if (n.find("set") != std::string::npos || n.find("msknz") != std::string::npos || n.find("frst") != std::string::npos) {
			switch (g.below(5)) {
			case 0: memset(j.b, 0, 32); break;
			case 1: for (auto& x : j.b) x |= 1; break;
			case 2: memset(j.b, 0, 32); j.b[g.below(32)] = 1 + g.below(255); break;
			case 3: for (auto& x : j.b) x |= 1; j.b[g.below(32)] = 0; break;
			default: for (auto& x : j.b) if (g.chance(1, 3)) x = 0; }
			if (n.find("frst") != std::string::npos) for (auto& x : j.b) if (g.chance(3, 4)) x &= 127;
		}
	}
}
// an address whose n bytes lie in a followed window, straddle the end of the arena, or lie outside
static u64 address(Rng& g, int n) {
	if (g.chance(1, 8)) { static const std::vector<u64> bad = {0, 0xFFFF, 0xFFE0, END, END + 8, END + 0x1000, 0x80000000ull, 0xFFFFFFFFull, 0x100100000ull, 0x8000000000000000ull, ~0ull, ~31ull, 0xFFFFFFFFFFF00000ull}; return g.pick(bad); }
	if (g.chance(1, 40)) return END - 1 - g.below(n);
	switch (g.below(4)) {
	case 0: return RW - n - g.below(129 - n);
	case 1: return RW - g.below(n);
	case 2: return END - n - g.below(96);
	default: return RW + g.below(256 - n);
	}
}
static i64 si12(u32 w) { return (i32)(w << 10) >> 20; }

static std::vector<const IsaOp*> class_ops(const std::string& cls) {
	std::vector<const IsaOp*> r;
	for (auto& o : ISA) { std::string n = o.name; bool vec = n[0] == 'v' || n[0] == 'x'; if (cls == "all" || (cls == "fp" && is_fp(n)) || (cls == "vec" && vec)) r.push_back(&o);
		if (cls == "vec" && (n.find("setall") != std::string::npos || n.find("setany") != std::string::npos || n.find("msk") != std::string::npos || n.find("frst") != std::string::npos)) for (int i = 0; i < 3; i++) r.push_back(&o); } // what depends on one lane among many
	return r;
}
typedef std::vector<std::pair<u32, const IsaOp*>> Words;
static u32 word_of(Rng& g, const IsaOp& o) { u32 w = (u32)(o.lo + g.below(o.hi - o.lo + 1)) << 10 | (u32)g.below(1024); return o.fmt[0] == 'C' ? w & ~24u : w; }
// register fields alike, pair by pair, register fields and immediates at their extremes
static Words corner_words(Rng& g, const std::string& cls, u64 shard, u64 shards) {
	Words r; const auto list = class_ops(cls);
	for (size_t n = shard; n < list.size(); n += shards) {
		const IsaOp& o = *list[n]; std::string f = o.fmt; int regs = f[1] == 'M' ? (f.size() > 2 ? 3 : 2) : (int)f.size(), from = f[0] == 'C' ? 1 : 0;
		auto add = [&](u32 w) { r.push_back({w, &o}); };
		for (int a = from; a < regs; a++) {
			for (u32 x : {0u, 31u}) add((word_of(g, o) & ~(31u << 5 * a)) | x << 5 * a);
			for (int b = a + 1; b < regs; b++) for (int q = 0; q < 3; q++) { u32 w = word_of(g, o), v = q == 1 ? 0 : (w >> 5 * a) & 31; add((w & ~(31u << 5 * a) & ~(31u << 5 * b)) | v << 5 * a | v << 5 * b); }
		}
		if (regs == 2 || f[1] == 'M') { add((word_of(g, o) & 1023u) | o.lo << 10); add((word_of(g, o) & 1023u) | o.hi << 10); }
		if (regs == 2 && f[1] != 'M' && o.hi > o.lo) { // every part of an immediate's range, at least twice where it selects what is done
			u32 span = o.hi - o.lo + 1, parts = std::min(span, 32u), k = std::string(o.name).find("ldi") != std::string::npos ? 3 : 1;
			for (u32 i = 0; i < parts; i++) for (u32 q = 0; q < k; q++) add((word_of(g, o) & 1023u) | (o.lo + span / parts * i + (u32)g.below(span / parts)) << 10); }
	}
	return r;
}
static void mode_single(Rng& g, u64 count, const std::string& cls, const Words* words = nullptr, u64 reps = 4) {
	const auto list = class_ops(cls); const size_t NI = list.size(); size_t rot = words ? 0 : g.below(NI); u64 done = 0; bool first = true;
	if (words) count = words->size() * reps;
	while (done < count) {
		code_words.clear(); std::vector<const IsaOp*> slots;
		for (int i = 0; i < 60; i++) {
			if (words && rot >= words->size()) break;
			const IsaOp& o = words ? *(*words)[rot].second : *list[rot % NI]; std::string f = o.fmt;
			u32 w = words ? (*words)[rot].first : word_of(g, o); rot++;
			auto& cw = code_words; slots.push_back(&o); cw.push_back(w); cw.push_back(STOP);
		}
		if (slots.empty()) break;
		install_code(RO + 4 * g.below(0x4000));
		if (first) { Setup s; for (u32 i = 0; i < 32; i++) s.v.push_back({i, intvec(g, 8)}); for (u32 i = 1; i < 32; i++) s.r.push_back({i, g.word()}); for (u32 i = 0; i < 512; i++) s.m.push_back({i, (u8)g.next()}); for (u32 i = 0; i < 8; i++) s.c.push_back({i, (u8)g.below(2)}); run(code_base, 1, s); first = false; }
		for (u64 rep = 0; rep < reps; rep++) for (size_t i = 0; i < slots.size() && done < count; i++, done++) {
			u32 w = code_words[2 * i]; std::string f = slots[i]->fmt, n = slots[i]->name; Setup s;
			u32 rd = w & 31, rj = (w >> 5) & 31, rk = (w >> 10) & 31, ra = (w >> 15) & 31;
			V32 j = intvec(g, 8), k = intvec(g, 8), a = intvec(g, 8), d = intvec(g, 8); operands(g, n, j, k, a, d);
			auto setr = [&](u32 r, u64 v) { if (r) s.r.push_back({r, v}); };
			size_t mp = f.find('M');
			if (mp != std::string::npos) {
				u64 ad = address(g, f[0] == 'S' ? 4 : f[0] == 'D' ? 8 : f[0] == 'X' ? 16 : 32);
				if (f.size() > 2) { if (rj == rk) setr(rj, ad / 2); else if (rj == 0) setr(rk, ad); else { u64 q = g.chance(1, 3) ? g.below(64) : g.word(); if (rk == 0) q = 0; setr(rk, q); setr(rj, ad - q); } }
				else setr(rj, ad - si12(w));
				s.v.push_back({rd, d});
			} else {
				bool gsrc = f.find('G', 1) != std::string::npos;
				if (gsrc) { setr(rj, g.word()); if (rk != rj) setr(rk, g.word()); }
				s.v.push_back({rd, d});
				if (f.size() > 3) s.v.push_back({ra, a});
				if (f.size() > 2) s.v.push_back({rk, k});
				s.v.push_back({rj, j});
				if (f[0] == 'C') s.c.push_back({rd & 7, (u8)g.below(2)});
			}
			run(code_base + 8 * i, 1, s);
		}
	}
}
// straight lines; registers 0..5 hold 4 defined bytes, 6..11 8, 12..19 16, 20..31 32
static u32 reg_of(Rng& g, char c, bool src) {
	int lo = c == 'S' ? 0 : c == 'D' ? 6 : c == 'X' ? 12 : 20, hi = c == 'S' ? 5 : c == 'D' ? 11 : c == 'X' ? 19 : 31;
	if (src && g.chance(1, 4)) { hi = 31; }
	return lo + (u32)g.below(hi - lo + 1);
}
static bool nan_in(const V32& v, char c, bool dbl) {
	int bytes = c == 'S' ? 4 : c == 'D' ? 8 : c == 'X' ? 16 : 32;
	for (int i = 0; i < bytes / (dbl ? 8 : 4); i++) { u64 x = lane(v, dbl ? 8 : 4, i); if (dbl ? std::isnan(dof(x)) : std::isnan(sof(x))) return true; }
	return false;
}
static void mode_seq(Rng& g, u64 count) {
	std::vector<const IsaOp*> ops, fps;
	for (auto& o : ISA) { std::string n = o.name; if (n.find("fmax") == 0 || n.find("fmin") == 0 || n.find("shuf") != std::string::npos) continue; ops.push_back(&o); if (is_fp(n)) fps.push_back(&o); }
	u64 done = 0; bool first = true;
	while (done < count) {
		struct Prog { std::vector<u32> w; std::vector<const IsaOp*> o; Setup s; size_t at; }; std::vector<Prog> ps;
		for (int q = 0; q < 24; q++) {
			Prog p; int len = 1 + (int)g.below(12); u64 base[4];
			for (auto& x : base) x = address(g, 32);
			for (int i = 0; i < len; i++) {
				const IsaOp* o = g.chance(1, 3) ? g.pick(fps) : g.pick(ops); std::string f = o->fmt;
				u32 w = (u32)(o->lo + g.below(o->hi - o->lo + 1)) << 10;
				u32 rd, rj = 0;
				if (f[0] == 'G') rd = (u32)g.below(3) == 0 ? 0 : 1 + (u32)g.below(15); else if (f[0] == 'C') rd = (u32)g.below(8);
				else { bool store = std::string(o->name).find("st") != std::string::npos && f[1] == 'M'; rd = reg_of(g, f[0], store); }
				if (f[1] == 'M') rj = 20 + (u32)g.below(4); else if (f[1] == 'G') rj = 1 + (u32)g.below(15); else rj = reg_of(g, f[1], true);
				w |= rj << 5 | rd;
				if (f[1] == 'M') { // base registers r20..r23, index registers r24..r27, short offsets
					if (f.size() > 2) w = (w & ~(31u << 10)) | (24 + (u32)g.below(4)) << 10;
					else w = (w & ~(4095u << 10)) | ((u32)(g.below(5) - 2) * 8 & 4095) << 10;
				} else {
					if (f.size() > 2) { u32 rk = f[2] == 'G' ? 1 + (u32)g.below(15) : reg_of(g, f[2], true); w = (w & ~(31u << 10)) | rk << 10; }
					if (f.size() > 3) w = (w & ~(31u << 15)) | reg_of(g, f[3], true) << 15;
				}
				p.w.push_back(w); p.o.push_back(o);
			}
			for (u32 i = 0; i < 32; i++) {
				V32 v = intvec(g, 8); bool s = i < 6 || g.chance(1, 4);
				if (i < 12 || g.chance(2, 3)) for (int l = 0; l < (s ? 8 : 4); l++) { u64 x; do x = fbits(g, !s); while (s ? std::isnan(sof(x)) : std::isnan(dof(x))); if (g.chance(1, 2)) x = s ? bofs((float)(i64)(g.below(200) - 100) / 8) : bof((double)(i64)(g.below(2000) - 1000) / 64); setlane(v, s ? 4 : 8, l, x); }
				p.s.v.push_back({i, v});
			}
			for (u32 i = 1; i < 16; i++) p.s.r.push_back({i, g.word()});
			for (u32 i = 0; i < 4; i++) { p.s.r.push_back({20 + i, base[i]}); p.s.r.push_back({24 + i, g.chance(1, 2) ? 0 : g.below(16)}); }
			ps.push_back(p);
		}
		auto layout = [&] { code_words.clear(); for (auto& p : ps) { p.at = code_words.size(); code_words.insert(code_words.end(), p.w.begin(), p.w.end()); code_words.push_back(STOP); } };
		layout(); u64 base = RO + 4 * g.below(0x4000); install_code(base);
		// a NaN has no definite bits: a line ends with the instruction that made one
		for (auto& p : ps) {
			Snap keep; engs[0].load(keep); auto win = grab(engs[0]); Snap s = keep; apply(s, p.s); engs[0].store(s);
			Obs o; std::vector<Snap> tr; execute(0, base + 4 * p.at, p.w.size(), o, &tr);
			for (size_t i = 0; i < p.w.size() && i < tr.size(); i++) {
				std::string n = p.o[i]->name; char c = p.o[i]->fmt[0];
				if (is_fp(n) && n.find("fld") == std::string::npos && n.find("fst") == std::string::npos && n.find("ftint") == std::string::npos && n.find("fcmp") == std::string::npos && c != 'G'
					&& nan_in(tr[i].v[p.w[i] & 31], c, n.rfind("ffint.d", 0) == 0 || n.rfind("fcvt.d", 0) == 0 || (ends(n, ".d") && n.rfind("fcvt.s", 0) != 0))) { p.w.resize(i + 1); p.o.resize(i + 1); break; }
			}
			engs[0].store(keep); put(engs[0], win);
		}
		layout(); install_code(base);
		if (first) { Setup s; for (u32 i = 1; i < 32; i++) s.r.push_back({i, g.word()}); for (u32 i = 0; i < 512; i++) s.m.push_back({i, (u8)g.next()}); s.v = ps[0].s.v; run(base + 4 * ps[0].at, ps[0].w.size(), s); first = false; }
		for (auto& p : ps) { if (done++ >= count) break; run(base + 4 * p.at, p.w.size(), p.s); }
	}
}
// which prefixes are executed and which are reported as illegal
static void mode_map(Rng& g, u64 shard, u64 shards) {
	u64 per = (1ull << 22) / shards, from = shard * per, to = from + per; u64 n = 0;
	for (int e = 0; e < 2; e++) {
		std::string st; u64 lo = from; bool open = false;
		auto close = [&](u64 hi) { if (!open) return; Out o; o.obj(); o.kstr("e", "map"); o.kstr("eng", e ? "fast" : "slow"); o.knum("lo", lo); o.knum("hi", hi); o.kstr("st", st); o.eobj(); emit(o); g_runs++; open = false; };
		for (u64 c = from; c < to; c += 16384) {
			std::vector<u32> ws; for (u64 i = c; i < c + 16384; i++) { u32 low = (1 + (u32)g.below(3)) << 5 | (2 + (u32)g.below(6)); ws.push_back((u32)(i << 10) | low); ws.push_back(STOP); }
			u64 base = 0x20000; Machine m{std::string_view{}, *opts}; m.set_options(opts); m.memory.allocate_custom_arena(END, RO, RW);
			g_now = "installing prefixes";
			if (e == 0) m.cpu.init_slowpath_execute_area(ws.data(), base, ws.size() * 4);
			else { m.memory.copy_into_arena_unsafe(base, ws.data(), ws.size() * 4); m.cpu.init_execute_area(ws.data(), base, ws.size() * 4); }
			m.set_max_instructions(UINT64_MAX);
			for (u64 i = 0; i < 16384; i++) {
				u32 w = ws[2 * i]; u32 op6 = w >> 26;
				if (e == 1 && op6 >= 0x10 && op6 <= 0x1B) { close(c + i - 1); continue; } // jumps elsewhere
				auto& R = m.cpu.registers(); for (int r = 1; r < 32; r++) R.get(r) = RW + 256; R.get(11) = 499; R.pc = base + 8 * i;
				{ char buf[64]; snprintf(buf, sizeof buf, "engine %s word 0x%08x", e ? "fast" : "slow", w); g_now = buf; }
				std::string s = "ok";
				auto body = [&] { try { if (e == 0) m.cpu.step_one(true); else { m.set_instruction_counter(0); m.simulate(100, 0); } } catch (const MachineException& ex) { if (!strcmp(exname(ex.type()), "ill")) s = "ill"; } };
				WITH_TRAP(body(), {}); n++;
				if (open && s != st) close(c + i - 1);
				if (!open) { open = true; lo = c + i; st = s; }
			}
		}
		close(to - 1);
	}
	fprintf(stdout, "DRIVER words=%lu\n", (long)n);
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	std::string mode = arg(argc, argv, "mode", "single");
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 300);
	{ Machine warm(std::string_view{}, *opts); }
	Machine::install_syscall_handler(490, [](Machine& m) { m.stop(); });
	Rng g(seed * 1000003 + shard * 7919 + std::hash<std::string>{}(mode) % 1000);
	if (mode == "single") mode_single(g, count, arg(argc, argv, "class", "all"));
	else if (mode == "corner") { std::string cls = arg(argc, argv, "class", "all"); Words w = corner_words(g, cls, shard, argn(argc, argv, "shards", 8)); mode_single(g, 0, cls, &w, argn(argc, argv, "reps", 1)); }
	else if (mode == "seq") mode_seq(g, count);
	else if (mode == "map") mode_map(g, shard, argn(argc, argv, "shards", 8));
	else return 3;
	fclose(g_out);
	fprintf(stdout, "DRIVER runs=%lu\n", (long)g_runs);
	return 0;
}
