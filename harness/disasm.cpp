// Texts of instruction words from the real disassembler.
#include "common.hpp"
#include "isanames.hpp"
static std::shared_ptr<MachineOptions> opts = std::make_shared<MachineOptions>();
static const u64 BASE = 0x20000, RO = 0x10000, RW = 0x100000, END = 0x200000;
static u64 g_runs = 0;
struct Tok { std::string k; i64 v; };
static bool regtok(const std::string& s, Tok& t) {
	static std::map<std::string, Tok> m;
	if (m.empty()) {
		static const char* R[] = {"zero","ra","tp","sp","a0","a1","a2","a3","a4","a5","a6","a7","t0","t1","t2","t3","t4","t5","t6","t7","t8","r21","fp","s0","s1","s2","s3","s4","s5","s6","s7","s8"};
		for (int i = 0; i < 32; i++) {
			m[R[i]] = {"r", i}; m["r" + std::to_string(i)] = {"r", i}; m["f" + std::to_string(i)] = {"f", i};
			m[i < 8 ? "fa" + std::to_string(i) : i < 24 ? "ft" + std::to_string(i - 8) : "fs" + std::to_string(i - 24)] = {"f", i};
			m["vr" + std::to_string(i)] = {"v", i}; m["xr" + std::to_string(i)] = {"x", i};
		}
		m["s9"] = {"r", 22}; m["x"] = {"r", 21};
		for (int i = 0; i < 8; i++) m["fcc" + std::to_string(i)] = {"c", i};
		for (int i = 0; i < 32; i++) { m["fcsr" + std::to_string(i)] = {"q", i}; m["scr" + std::to_string(i)] = {"z", i}; }
	}
	auto it = m.find(s); if (it == m.end()) return false; t = it->second; return true;
}
struct Text { bool none = false; std::string mn; std::vector<Tok> ops; bool tgt = false; u64 target = 0; u32 word = 0; };
static Text parse(const std::string& s0) {
	Text t; std::string s = s0; size_t h = s.find('#');
	if (h != std::string::npos) { std::string c = s.substr(h + 1); s = s.substr(0, h); char* e = nullptr; u64 v = strtoull(c.c_str(), &e, 0); if (e && e != c.c_str()) { t.tgt = true; t.target = v; } }
	size_t i = s.find_first_not_of(" \t"); if (i == std::string::npos) { t.none = true; return t; }
	size_t j = s.find_first_of(" \t", i); t.mn = s.substr(i, j == std::string::npos ? j : j - i);
	bool lower = false; for (char c : t.mn) lower |= islower((unsigned char)c) != 0;
	if (!lower || isupper((unsigned char)t.mn[0])) { t.none = true; size_t x = s.find("0x"); t.word = x == std::string::npos ? 0 : (u32)strtoul(s.c_str() + x, nullptr, 16); return t; }
	std::string rest = j == std::string::npos ? "" : s.substr(j);
	size_t p = 0; if (rest.find_first_not_of(" \t") == std::string::npos) return t;
	while (p <= rest.size()) {
		size_t c = rest.find(',', p); std::string o = rest.substr(p, c == std::string::npos ? c : c - p); p = c == std::string::npos ? rest.size() + 1 : c + 1;
		size_t a = o.find_first_not_of(" \t"), b = o.find_last_not_of(" \t"); o = a == std::string::npos ? "" : o.substr(a, b - a + 1);
		Tok k{"?", 0};
		if (o.size() > 1 && o[0] == '$') regtok(o.substr(1), k);
		else if (!o.empty()) { char* e = nullptr; i64 v = strtoll(o.c_str(), &e, 0); if (e && !*e && v >= INT32_MIN && v <= INT32_MAX) k = {"n", v}; }
		t.ops.push_back(k);
	}
	return t;
}
static std::string text_of(Machine& m, u32 w) { CPU::format_t f; f.whole = w; return m.cpu.to_string(f); }
static void dis(Machine& m, u32 w, u64 pc, bool placed) {
	{ char b[64]; snprintf(b, sizeof b, "text of 0x%08x at 0x%lx", w, (long)pc); g_now = b; }
	m.cpu.registers().pc = pc; std::string s = text_of(m, w); bool same = !placed || m.cpu.current_instruction_to_string() == s;
	Text t = parse(s); Out o; o.obj(); o.kstr("e", "dis"); o.karr("w"); o.num(w >> 10); o.num(w & 1023); o.end(); o.kstr("text", s); o.kstr("st", t.none ? "none" : "ok"); o.kstr("mn", t.mn);
	o.karr("ops"); for (auto& k : t.ops) { o.arr(); o.str(k.k); o.num(k.v); o.end(); } o.end();
	if (t.tgt) o.kbytes("tgt", t.target); else { o.karr("tgt"); o.end(); }
	o.kbytes("pc", pc); o.kbytes("bytes", w); o.kbytes("uw", t.word); o.kbool("same", same); o.eobj(); emit(o); g_runs++;
}
static void mode_words(Rng& g, u64 shard, u64 shards, u64 reps) {
	std::vector<u32> ws;
	for (size_t i = shard; i < sizeof ISANAMES / sizeof *ISANAMES; i += shards) for (u64 k = 0; k < reps; k++) {
		auto& e = ISANAMES[i]; u64 span = e.hi - e.lo + 1; u32 hi = e.lo + (u32)(k == 0 ? 0 : k == 1 ? span - 1 : g.below(span)); u32 lo = k == 0 ? 0 : k == 1 ? 1023 : (u32)g.below(1024);
		auto field = [&](unsigned at, u32 v, u32 wd) { u32 w = hi << 10 | lo, mk = ((1u << wd) - 1) << at; w = (w & ~mk) | (v << at & mk); if ((w >> 10) >= e.lo && (w >> 10) <= e.hi) { hi = w >> 10; lo = w & 1023; } };
		if (k > 1 && g.chance(1, 2)) for (unsigned at : {0u, 5u, 10u, 15u}) if (g.chance(1, 2)) field(at, g.chance(1, 2) ? 0 : g.chance(1, 2) ? 31 : 1, 5);
		ws.push_back(hi << 10 | lo);
	}
	for (int i = 0; i < 200; i++) ws.push_back((u32)g.next());
	Machine m{std::string_view{}, *opts}; m.set_options(opts); m.memory.allocate_custom_arena(END, RO, RW);
	for (size_t at = 0; at < ws.size(); at += 4096) {
		std::vector<u32> part(ws.begin() + at, ws.begin() + std::min(ws.size(), at + 4096));
		m.memory.copy_into_arena_unsafe(BASE, part.data(), part.size() * 4); m.cpu.init_execute_area(part.data(), BASE, part.size() * 4);
		for (size_t i = 0; i < part.size(); i++) {
			dis(m, part[i], BASE + 4 * i, true);
			if (g.chance(1, 4)) dis(m, part[i], g.chance(1, 2) ? g.word() & ~3ull : g.chance(1, 2) ? 4 * g.below(1u << 20) : 0x80000000ull - 4 * g.below(1u << 20), false);
		}
	}
	for (u64 pc : {0x0ull, 0x8ull, 0xFFFCull, (unsigned long long)END, (unsigned long long)END + 4096, 0x7FFFFFFF0ull, ~3ull, 0x8000000000000000ull}) {
		m.cpu.registers().pc = pc; g_now = "text outside memory"; std::string s = m.cpu.current_instruction_to_string(); Text t = parse(s);
		Out o; o.obj(); o.kstr("e", "out"); o.kbool("instr", !t.none && pc >= END + 64); o.kstr("text", s); o.eobj(); emit(o);
	}
}
static void mode_map(Rng& g, u64 shard, u64 shards) {
	u64 per = (1u << 22) / shards, from = shard * per, to = shard + 1 == shards ? 1u << 22 : from + per;
	Machine m{std::string_view{}, *opts}; m.set_options(opts); m.memory.allocate_custom_arena(END, RO, RW); m.cpu.registers().pc = BASE;
	std::string mn; u64 lo = from; bool open = false;
	auto close = [&](u64 hi) { if (!open) return; Out o; o.obj(); o.kstr("e", "map"); o.knum("lo", lo); o.knum("hi", hi); o.kstr("mn", mn); o.eobj(); emit(o); open = false; };
	for (u64 i = from; i < to; i++) {
		u32 w = (u32)(i << 10) | (1 + (u32)g.below(3)) << 5 | (2 + (u32)g.below(6)); { static char b[40]; snprintf(b, sizeof b, "text of 0x%08x", w); g_now = b; }
		Text t = parse(text_of(m, w)); std::string n = t.none ? "" : t.mn; g_runs++;
		if (open && n != mn) close(i - 1);
		if (!open) { open = true; lo = i; mn = n; }
	}
	close(to - 1);
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", "")); std::string mode = arg(argc, argv, "mode", "words");
	u64 shard = argn(argc, argv, "shard", 0), shards = argn(argc, argv, "shards", 8), seed = argn(argc, argv, "seed", 1), reps = argn(argc, argv, "reps", 8);
	Rng g(seed * 1000003 + shard * 7919 + std::hash<std::string>{}(mode) % 1000);
	if (mode == "words") mode_words(g, shard, shards, reps); else if (mode == "map") mode_map(g, shard, shards); else return 3;
	fclose(g_out); fprintf(stdout, "DRIVER runs=%lu\n", (long)g_runs); return 0;
}
