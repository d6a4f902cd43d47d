// Records what the library says about addresses: symbols, backtraces, calls under the debugger.
#include "elfgen.hpp"
#include <cxxabi.h>
#include <libloong/debug.hpp>
static const u64 BASE = 0x10000, DATA = 0x40000;
static u64 g_runs = 0;
static std::string dem(const std::string& n) { if (n.compare(0, 2, "_Z")) return n; int st = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); std::string r = st == 0 && d ? d : n; free(d); return r; }
static std::string ident(Rng& g, size_t n) { std::string s; static const char* A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789$."; for (size_t i = 0; i < n; i++) s += A[g.below(i ? 65 : 53)]; return s; }
static std::string name(Rng& g, bool longs) {
	static const char* fixed[] = {"main", "_start", "f", "i", "a", "v", "_Z", "_Z3foov", "_ZN1a1bEi", "_ZN4test5thing3runERKSsPFvidE", "_ZSt4moveIRiEONSt16remove_referenceIT_E4typeEOS2_", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_R3foo", "_Zbroken", "__Z3foov", "operator", "_ZN9__gnu_cxx13new_allocatorIcE8allocateEmPKv"};
	switch (g.below(longs ? 6 : 4)) {
	case 0: return fixed[g.below(sizeof fixed / sizeof *fixed)];
	case 1: return ident(g, 1 + g.below(40));
	case 2: { size_t n = 1 + g.below(30); return "_Z" + std::to_string(n) + ident(g, n) + (g.chance(1, 2) ? "v" : "ill"); }
	case 3: return ident(g, 1 + g.below(300));
	case 4: { static const size_t E[] = {200, 1000, 2047, 4000, 4060, 4065, 4066, 4067, 4068, 4069, 4070, 4071, 4072, 4095, 4096, 4097, 5000, 9000}; return ident(g, E[g.below(18)] + g.below(3)); }
	default: { size_t n = 3000 + g.below(4000); return "_Z" + std::to_string(n) + ident(g, n) + "i"; }
	}
}
struct Syms { std::vector<Symb> v; };
static void one_backtrace(Rng& g, u64 count, bool longs) {
	ElfSpec e; Seg s{}; s.type = 1; s.flags = 5; s.vaddr = BASE; s.filesz = s.memsz = 4096; for (int i = 0; i < 4096; i++) s.data.push_back(i % 4 == 2 ? 0x15 : 0); e.segs.push_back(s);
	Seg w{}; w.type = 1; w.flags = 6; w.vaddr = DATA; w.filesz = 0; w.memsz = 8192; e.segs.push_back(w); e.entry = BASE;
	int ns = g.chance(1, 8) ? 0 : 1 + g.below(12);
	for (int i = 0; i < ns; i++) { Symb y{}; y.name = name(g, longs && g.chance(1, 3)); y.info = (g.chance(1, 2) ? 0x10 : 0) | (g.chance(3, 4) ? 2 : 1); y.value = g.chance(1, 6) ? DATA + g.below(8192) : BASE + 4 * g.below(200); y.size = g.chance(1, 4) ? 0 : g.chance(1, 2) ? 4 * (1 + g.below(12)) : g.below(900); (g.chance(1, 6) ? e.dyns : e.syms).push_back(y); }
	std::vector<u8> file = e.build(g); auto ex = std::make_unique<Exact>(file);
	MachineOptions o; o.memory_max = 1 << 20; o.verbose_loader = false; o.stack_size = 8192; o.brk_size = 8192;
	Machine m{ex->view(), o}; m.set_options(std::make_shared<MachineOptions>(o));
	auto syms = [&](Out& t) { t.karr("syms"); for (auto* v : {&e.syms, &e.dyns}) for (auto& y : *v) { t.obj(); t.kstr("n", y.name); t.kstr("d", dem(y.name)); t.knum("a", y.value); t.knum("z", y.size); t.eobj(); } t.end(); };
	{ Out t; t.obj(); t.kstr("e", "image"); syms(t); t.kbytes("size", m.memory.arena_size()); t.eobj(); emit(t); }
	auto addr = [&]() -> u64 { switch (g.below(8)) { case 0: return g.word(); case 1: return 0; case 2: case 3: if (ns) { auto& v = e.syms.empty() ? e.dyns : e.syms; auto& y = v[g.below(v.size())]; return y.value + (g.chance(1, 2) ? y.size : 0) + g.below(3) - 1; } [[fallthrough]]; default: return g.chance(1, 5) ? DATA + g.below(9000) : BASE + g.below(1000); } };
	for (u64 k = 0; k < count; k++) {
		if (g.chance(1, 2)) {
			u64 a = addr(); bool off = g.chance(1, 2); char b[60]; snprintf(b, sizeof b, "lookup of 0x%lx", (long)a); g_now = b;
			std::string s1 = off && g.chance(1, 2) ? m.lookup_demangled_symbol(a) : m.lookup_demangled_symbol(a, off);
			Out t; t.obj(); t.kstr("e", "lookup"); t.kbytes("at", a); t.kbool("off", off);
			size_t p = s1.rfind("+0x"); bool has = p != std::string::npos && p > 0 && s1.find_first_not_of("0123456789abcdef", p + 3) == std::string::npos && p + 3 < s1.size();
			t.kstr("name", has ? s1.substr(0, p) : s1); t.kbytes("o", has ? strtoull(s1.c_str() + p + 3, nullptr, 16) : 0); t.kbool("has", has); t.eobj(); emit(t); g_runs++; continue;
		}
		u64 sp; const u64 top = m.memory.arena_size(); u64 in; int depth = g.chance(1, 6) ? 60 + g.below(12) : g.below(12);
		switch (g.below(6)) { case 0: sp = top - 8 * g.below(5); break; case 1: sp = g.chance(1, 2) ? g.word() | 1ull << 40 : top + g.below(100); break; default: sp = DATA + 8 * g.below(200) + (g.chance(1, 8) ? 1 + g.below(7) : 0); }
		std::vector<u64> stk; if (sp >= DATA && sp < top) for (int i = 0; i < depth + 1 && sp + 8 * i + 8 <= top; i++) { u64 v = i == depth ? 0 : addr(); if (!v && i != depth && g.chance(2, 3)) v = BASE + 4; stk.push_back(v); m.memory.write<u64>(sp + 8 * i, v); }
		u64 ra = g.chance(1, 12) ? 0 : addr(), pc = g.chance(1, 10) ? g.word() : addr(); in = g.chance(1, 2) ? 0 : addr();
		m.cpu.reg(REG_SP) = sp; m.cpu.reg(REG_RA) = ra; m.cpu.registers().pc = pc;
		char b[120]; snprintf(b, sizeof b, "backtrace from 0x%lx, sp 0x%lx, ra 0x%lx", (long)pc, (long)sp, (long)ra); g_now = b; bool threw = false; std::string text; try { text = m.backtrace(in); } catch (...) { threw = true; }
		Out t; t.obj(); t.kstr("e", "backtrace"); t.kbytes("initial", in ? in : pc); t.kbytes("ra", ra); t.kbytes("sp", sp); t.kbool("threw", threw); t.karr("stk"); for (u64 v : stk) t.bytes(v); t.end(); t.karr("lines");
		size_t at = 0; while (at < text.size()) { size_t q = text.find('\n', at); if (q == std::string::npos) q = text.size(); std::string ln = text.substr(at, q - at); at = q + 1; t.obj(); unsigned long long a = 0; char idx[40] = ""; int n = 0; bool ok = sscanf(ln.c_str(), "#%30[^:]: %llx%n", idx, &a, &n) == 2; t.kbool("ok", ok); t.kstr("i", idx); t.kbytes("a", a);
			std::string nm = ok && (size_t)n < ln.size() ? ln.substr(n + 1) : ""; size_t p = nm.rfind("+0x"); bool has = p != std::string::npos && p > 0 && p + 3 < nm.size() && nm.find_first_not_of("0123456789abcdef", p + 3) == std::string::npos; t.kstr("name", has ? nm.substr(0, p) : nm); t.kbytes("o", has ? strtoull(nm.c_str() + p + 3, nullptr, 16) : 0); t.kbool("has", has); t.eobj(); }
		t.end(); t.eobj(); emit(t); g_runs++;
	}
}
// ---- functions called under the debugger --------------------------------
static u32 I12(u32 op, int rd, int rj, int imm) { return op << 22 | (u32(imm) & 0xFFF) << 10 | rj << 5 | rd; }
static void one_call(Rng& g, u64 count) {
	// f_n: a0 = sum over i < n of (first byte of argument i) << i%6*3 ; g: sums up to the terminator of a0 ; fast_exit: exit(a0)
	std::vector<u32> c; std::vector<Symb> sy; auto here = [&] { return BASE + 4 * (u64)c.size(); }; std::vector<u64> starts;
	for (int n = 0; n <= 8; n++) { u64 st = here(); starts.push_back(st); c.push_back(I12(0x0B, 12, 0, n == 0 ? 77 : 0)); // addi.d t0, zero
		for (int i = 0; i < n; i++) { c.push_back(I12(0xA8, 13, 4 + i, 0)); c.push_back(0x00410000u | (3 * (i % 6)) << 10 | 13 << 5 | 13); c.push_back(0x00108000u | 13 << 10 | 12 << 5 | 12); }
		c.push_back(0x00150000u | 12 << 5 | 4); c.push_back(0x4C000020u); sy.push_back({"f" + std::to_string(n), 0x12, st, here() - st}); }
	u64 gs = here(); c.push_back(I12(0x0B, 12, 0, 0)); c.push_back(I12(0xA8, 13, 4, 0)); c.push_back(I12(0x0B, 4, 4, 1)); c.push_back(0x00108000u | 13 << 10 | 12 << 5 | 12); c.push_back(0x44000000u | (u32(-3) & 0xFFFF) << 10 | 13 << 5 | (u32(-3) >> 16 & 0x1F)); c.push_back(0x00150000u | 12 << 5 | 4); c.push_back(0x4C000020u); sy.push_back({"g", 0x12, gs, here() - gs});
	u64 ex = here(); c.push_back(I12(0x0B, 11, 0, 93)); c.push_back(0x002B0000u); sy.push_back({"fast_exit", 0x12, ex, 8});
	ElfSpec e; Seg s{}; s.type = 1; s.flags = 5; s.vaddr = BASE; s.data.resize(4 * c.size()); memcpy(s.data.data(), c.data(), s.data.size()); s.filesz = s.memsz = s.data.size(); e.segs.push_back(s); e.entry = ex; e.syms = sy;
	Seg w{}; w.type = 1; w.flags = 6; w.vaddr = DATA; w.filesz = 0; w.memsz = 4096; e.segs.push_back(w);
	std::vector<u8> file = e.build(g); Exact x(file); MachineOptions o; o.memory_max = 1 << 20; o.stack_size = 65536; o.brk_size = 8192; Machine m{x.view(), o}; m.set_options(std::make_shared<MachineOptions>(o)); m.setup_linux({"prog"}, {});
	for (u64 k = 0; k < count; k++) {
		int n = g.below(10); std::vector<std::string> as; for (int i = 0; i < (n == 9 ? 1 : n); i++) { std::string t; size_t l = g.chance(1, 6) ? 0 : g.below(20); for (size_t q = 0; q < l; q++) t += char(1 + g.below(255)); as.push_back(t); }
		DebugMachine d(m); d.verbose_instructions = d.verbose_registers = g.chance(1, 2); d.short_output = g.chance(1, 3); u64 max = 10000; if (g.chance(1, 3)) m.set_instruction_counter(g.below(1000000)); if (g.chance(1, 4)) max = 1 + g.below(60);
		long r = 0; std::string how = "ok", log; g_now = "call under the debugger";
		fflush(stdout); int keep = dup(1); FILE* tmp = tmpfile(); dup2(fileno(tmp), 1);
		try { r = d.vmcall(n == 9 ? gs : starts[n], max, as); if (!m.stopped()) how = "limit"; } catch (const MachineException& q) { how = exname(q.type()); } catch (...) { how = "otherexc"; }
		fflush(stdout); fseek(tmp, 0, SEEK_END); long sz = ftell(tmp); rewind(tmp); log.resize(sz); if (sz && fread(&log[0], 1, sz, tmp) != (size_t)sz) log.clear(); dup2(keep, 1); close(keep); fclose(tmp);
		i64 lines = 0, regs = 0; size_t at = 0; bool shown = true; while (at < log.size()) { size_t q = log.find('\n', at); if (q == std::string::npos) q = log.size(); std::string ln = log.substr(at, q - at); at = q + 1; if (d.short_output || !d.verbose_instructions) continue; if (ln.compare(0, 4, "PC: ") == 0 && ln.find("  ") != std::string::npos) { lines++; if (ln.find("[") == std::string::npos) shown = false; else { u64 pc = strtoull(ln.c_str() + 4, nullptr, 16); std::string w; for (auto& y : sy) if (pc >= y.value && pc < y.value + y.size) { char b[60]; snprintf(b, sizeof b, "[%s+0x%lx]", y.name.c_str(), (long)(pc - y.value)); w = b; } if (ln.find(w) == std::string::npos) shown = false; } } }
		(void)regs; Out t; t.obj(); t.kstr("e", "call"); t.knum("f", n); t.karr("args"); for (auto& a : as) { t.arr(); for (unsigned char ch : a) t.num(ch); t.end(); t.first = false; } t.end(); t.kstr("how", how); t.knum("r", r); t.knum("max", max); t.kbytes("cnt", m.instruction_counter()); t.knum("lines", d.verbose_instructions && !d.short_output ? lines : -1); t.kbool("shown", shown); t.eobj(); emit(t); g_runs++;
	}
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", "")); std::string mode = arg(argc, argv, "mode", "trace"); u64 seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0), count = argn(argc, argv, "count", 40); bool longs = argn(argc, argv, "long", 1);
	Rng g(seed * 1000003 + shard * 7919 + mode.size()); Machine::setup_linux_syscalls();
	if (mode == "trace") for (u64 i = 0; i < count; i++) one_backtrace(g, 12, longs); else if (mode == "call") for (u64 i = 0; i < count; i++) one_call(g, 20); else return 3;
	fclose(g_out); fprintf(stdout, "DRIVER runs=%lu\n", (long)g_runs); return 0;
}
