// Loads generated executables, well formed and broken ones, and records what the loader made of them.
// mode=good|bad|each|stack
#include "elfgen.hpp"
#include <fstream>
#include <libloong/shared_exec_segment.hpp>

static Rng* R;
static const char* NAMES[] = {"main", "_start", "a", "foo", "bar", "data_obj", "x.y$z", "longer_symbol_name_to_cross", "f0", "f1", "f2"};
static const u32 STOP = 0x00150000;
static u32 addi(int rd, int imm) { return 0x02C00000u | (u32(imm & 0xFFF) << 10) | rd; } // addi.d rd, zero, imm

static ElfSpec gen(u64 mem_max, u32& magic) {
	Rng& r = *R; ElfSpec e;
	u64 room = mem_max - 3 * 4096; // leaves room for a little stack and break area
	u64 a = r.chance(1, 4) ? r.below(64) * 4 : 4096 * r.below(4) + r.below(16) * 4;
	if (a + 256 > room) a = 4096;
	int nload = 1 + r.below(4); magic = 1 + r.below(2000);
	bool wseen = false; int xseg = -1;
	std::vector<std::pair<u64, u64>> ranges;
	for (int i = 0; i < nload && a + 64 < room; i++) {
		Seg s{}; s.type = 1; s.vaddr = a;
		u64 fs = r.chance(1, 8) ? 0 : 4 * (1 + r.below(60)); if (r.chance(1, 6)) fs += r.below(4);
		if (fs > room - a) fs = 16;
		u64 ms = fs + (r.chance(1, 2) ? 0 : r.below(3000)); if (ms > room - a) ms = fs;
		if (r.chance(1, 8) && ms < 3000) ms = std::min<u64>(room - a, 5000 + r.below(9000));
		if (fs == 0 && ms == 0) ms = 8;
		wseen = wseen || r.chance(1, 3); bool w = wseen;
		if (r.chance(1, 12)) w = !w;
		s.flags = 4 | (w ? 2 : 0);
		s.filesz = fs; s.memsz = ms;
		for (u64 k = 0; k < fs; k++) s.data.push_back(r.chance(1, 5) ? 0 : r.next());
		if (fs >= 12 && (r.chance(1, 2) || (xseg < 0 && i == nload - 1))) { s.flags |= 1; xseg = e.segs.size();
			u64 at = 4 * r.below((fs & ~3ull) / 4 - 1); u32 w0 = addi(4, magic), w1 = STOP;
			if ((a & 3) == 0) { memcpy(&s.data[at], &w0, 4); memcpy(&s.data[at + 4], &w1, 4); if (r.chance(1, 2) || e.entry == 0) e.entry = a + at; }
		}
		ranges.push_back({a, ms}); e.segs.push_back(s);
		a += ms; if (r.chance(1, 2)) a = (a + 4095) & ~4095ull; a = (a + 3) & ~3ull; if (r.chance(1, 3)) a += 4 * r.below(200);
	}
	if (e.entry == 0) e.entry = r.chance(1, 2) ? ranges[0].first : r.next();
	// other kinds of program headers in between
	for (int k = r.below(3); k > 0; k--) { Seg s{}; s.type = std::vector<u32>{0, 4, 7, 0x6474e551, 0x6474e552, 2}[r.below(6)]; s.flags = r.below(8); s.vaddr = r.word(); s.memsz = r.word(); s.filesz = r.chance(1, 2) ? 0 : r.word(); s.off = r.word(); s.has_off = true;
		e.segs.insert(e.segs.begin() + r.below(e.segs.size() + 1), s); }
	if (r.chance(1, 3)) e.phoff = 64 + 8 * r.below(20);
	e.sections = r.chance(5, 6); e.sections_first = r.chance(1, 3);
	// a segment that covers the file header and program headers, as linkers produce it
	if (r.chance(1, 3)) for (auto& s : e.segs) if (s.type == 1 && s.vaddr >= 4096) { u64 n = e.phoff + 56 * (e.segs.size() + 1); Seg h{}; h.type = 1; h.flags = 4; h.off = 0; h.has_off = true; h.filesz = h.memsz = n;
		if (ranges[0].first >= n + 8) { h.vaddr = (ranges[0].first - n) & ~7ull; e.segs.insert(e.segs.begin(), h); ranges.insert(ranges.begin(), {h.vaddr, n}); } break; }
	if (e.sections) {
		int n = r.below(6);
		auto mk = [&](std::vector<Symb>& v, int n) { std::set<std::string> used;
			for (int i = 0; i < n; i++) { Symb s; s.name = r.chance(1, 8) ? "" : NAMES[r.below(11)]; if (r.chance(3, 4)) s.name += std::to_string(v.size());
				auto& g = ranges[r.below(ranges.size())]; s.value = r.chance(1, 12) ? 0 : g.first + r.below(g.second); s.size = r.chance(1, 4) ? 0 : r.below(40); s.info = std::vector<u8>{0x12, 0x02, 0x11, 0x01, 0x10, 0x03, 0x04, 0x22}[r.below(8)]; v.push_back(s); } };
		if (r.chance(3, 4)) mk(e.syms, 1 + n); if (r.chance(1, 5)) mk(e.dyns, 1 + r.below(3));
		// .text (and .iplt) inside an executable segment that holds the entry point
		for (size_t i = 0; i < e.segs.size(); i++) { auto& s = e.segs[i];
			if (s.type == 1 && (s.flags & 1) && e.entry >= s.vaddr && e.entry < s.vaddr + s.filesz && r.chance(2, 3)) {
				Sect t{".text", 1, s.vaddr, 0, s.filesz, 0, {}}; t.has_off = true;
				u64 lead = 4 * r.below((e.entry - s.vaddr) / 4 + 1); t.addr += lead; t.size -= lead;
				if (r.chance(1, 3)) { Sect ip{".iplt", 1, t.addr, 0, 0, 0, {}}; ip.has_off = true; u64 l2 = 4 * r.below((e.entry - t.addr) / 4 + 1); ip.size = l2; t.addr += l2; t.size -= l2; if (l2) e.sects.push_back(ip); }
				e.sects.push_back(t); break; } }
		if (r.chance(1, 3)) { Sect t{".data", 1, ranges.back().first, 0, 8, 0, {1, 2, 3, 4, 5, 6, 7, 8}}; e.sects.push_back(t); }
	}
	return e;
}

static void rle(Out& o, const char* k, const u8* p, size_t n) { // runs of bytes that are not zero
	o.karr(k);
	for (size_t i = 0; i < n;) {
		if (p[i] == 0) { i++; continue; }
		size_t j = i, z = 0; while (j < n && z < 4) { z = p[j] ? 0 : z + 1; j++; }
		j -= z;
		o.arr(); o.num(i); o.arr(); for (size_t q = i; q < j; q++) o.num(p[q]); o.end(); o.end();
		i = j;
	}
	o.end();
}
static i64 cap(u64 v) { return v > 0x40000000 ? 0x40000000 : (i64)v; }

struct Guarded { u8* base = nullptr; size_t total = 0; u8* at = nullptr; size_t size = 0;
	void make(size_t n) { size = (n + 64 + 4095) & ~4095ull; total = size + 32 * 4096; base = (u8*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); at = base + 16 * 4096; mprotect(at, size, PROT_READ | PROT_WRITE); }
	void drop() { if (base) { munmap(base, total); base = nullptr; } } };

static std::string randstr(int max) { Rng& r = *R; std::string s; int n = r.chance(1, 6) ? 0 : r.below(max); for (int i = 0; i < n; i++) s += char(1 + r.below(255)); return s; }

int main(int argc, char** argv)
{
	common_init(arg(argc, argv, "out", ""));
	std::string mode = arg(argc, argv, "mode", "good");
	u64 count = argn(argc, argv, "count", 50), seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0);
	Rng rng(seed * 1000 + shard * 7 + mode[0]); R = &rng; Rng& r = rng;
	u64 files = 0, loaded = 0, rejected = 0, stacks = 0;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = trap_handler; sigaction(SIGALRM, &sa, nullptr);
	static const std::vector<u64> vals = {0, 1, 2, 3, 4, 5, 7, 8, 16, 56, 64, 255, 256, 257, 0xFFFF, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull, ~0ull - 7, ~0ull - 4095};
	// mode=each: every truncation of one file and every field of it with every boundary value
	ElfSpec e0; std::vector<u8> f0; u64 mem0 = 4096 * 12; u32 magic0 = 0; size_t ncase = 0; u64 of = argn(argc, argv, "of", 8);
	if (mode == "each") {
		Rng r0(seed * 31 + argn(argc, argv, "file", 0)); R = &r0;
		do { e0 = gen(mem0, magic0); f0 = e0.build(r0); } while (f0.size() > 1500 || e0.fields.size() < 60); R = &rng;
		ncase = f0.size() + 1 + e0.fields.size() * (vals.size() + 4); count = (ncase + of - 1) / of;
	}
	for (u64 it = 0; it < count; it++) {
		u64 mem = 4096 * (6 + r.below(26)); u32 magic = 0;
		ElfSpec e; std::vector<u8> file;
		if (mode != "each") { e = gen(mem, magic); file = e.build(r); }
		else {
			e = e0; file = f0; mem = mem0; magic = magic0;
			size_t k = it * of + shard; if (k >= ncase) break;
			if (k <= f0.size()) file.resize(k);
			else {
				k -= f0.size() + 1; auto f = e.fields[k / (vals.size() + 4)]; size_t w = k % (vals.size() + 4);
				u64 old = 0; memcpy(&old, &file[f.first], f.second);
				u64 v = w < vals.size() ? vals[w] : w == vals.size() ? old + 1 : w == vals.size() + 1 ? old - 1 : w == vals.size() + 2 ? 0 - old : file.size();
				memcpy(&file[f.first], &v, f.second);
			}
		}
		std::string what = mode == "each" ? "case " + std::to_string(it * of + shard) : "well formed";
		if (mode == "bad") {
			what = "";
			int k = 1 + r.below(3);
			for (int i = 0; i < k; i++) {
				switch (r.below(12)) {
				case 0: file.resize(r.below(file.size() + 1)); what += " truncate"; break;
				case 1: { size_t p = r.below(file.size()); if (p < file.size()) { file[p] = r.next(); what += " byte@" + std::to_string(p); } break; }
				case 2: if (r.chance(1, 6)) { file.resize(r.below(300)); for (auto& b : file) b = r.next(); if (r.chance(2, 3) && file.size() >= 20) { memcpy(&file[0], "\x7f" "ELF\2\1", 6); file[18] = 2; file[19] = 1; } what += " junk"; break; } [[fallthrough]];
				default: {
					if (file.empty()) break;
					auto f = r.pick(e.fields); if (f.first + f.second > file.size()) break;
					u64 old = 0; memcpy(&old, &file[f.first], f.second); u64 v;
					switch (r.below(7)) { case 0: v = old + 1; break; case 1: v = old - 1; break; case 2: v = file.size() - r.below(3) * 8; break; case 3: v = (0 - old) + r.below(3) * 4; break; case 4: v = old + (r.chance(1, 2) ? mem : file.size()); break; case 5: { auto g = r.pick(e.fields); v = 0; if (g.first + g.second <= file.size()) memcpy(&v, &file[g.first], g.second); v = 0 - v + r.below(64); break; } default: v = r.pick(vals); }
					memcpy(&file[f.first], &v, f.second); what += " field@" + std::to_string(f.first) + "/" + std::to_string(f.second);
				} }
			}
		}
		MachineOptions opt; opt.memory_max = mem; opt.use_shared_execute_segments = r.chance(1, 2);
		opt.stack_size = std::vector<size_t>{0, 16, 4096, 4096, 4000, 8192, 5000}[r.below(7)]; opt.brk_size = std::vector<size_t>{0, 4096, 4096, 100, 8192}[r.below(5)];
		if (mode == "stack") { opt.stack_size = std::vector<size_t>{1024, 4096, 8192, 600}[r.below(4)]; opt.memory_max += 8192; }
		if (mode == "bad" && r.chance(1, 12)) { u64 v = r.word(); if (v < (1u << 20) || v > ~0ull - (1 << 20)) (r.chance(1, 2) ? opt.stack_size : opt.brk_size) = v; }
		Guarded ar; if (r.chance(1, 2)) { ar.make(opt.memory_max); opt.custom_arena_pointer = ar.at; opt.custom_arena_size = ar.size; }
		files++;
		Out o; o.obj(); o.kstr("op", "load"); o.kstr("what", what);
		o.karr("file"); for (u8 b : file) o.num(b); o.end();
		o.knum("max", cap(opt.memory_max)); o.knum("stack", cap(opt.stack_size)); o.knum("brk", cap(opt.brk_size));
		g_now = "loading" + what + " it=" + std::to_string(it) + " mode=" + mode;
		std::string exc; std::unique_ptr<Machine> m;
		{
			Exact ex(file);
			alarm(30);
			try { m = std::make_unique<Machine>(ex.view(), opt); }
			catch (const MachineException& x) { exc = exname(x.type()); }
			catch (const std::exception& x) { exc = "std"; }
			catch (...) { exc = "other"; }
			o.kbool("ok", m != nullptr); o.kstr("exc", exc);
			if (m) {
				loaded++;
				auto& M = m->memory; size_t as = M.arena_size();
				o.key("entry"); o.bytes(M.start_address()); o.key("pc"); o.bytes(m->cpu.pc()); o.key("sp"); o.bytes(m->cpu.reg(REG_SP));
				o.knum("rodata", cap(M.rodata_start())); o.knum("data", cap(M.data_start())); o.knum("heap", cap(M.heap_address())); o.knum("brka", cap(M.brk_address()));
				o.knum("top", cap(M.stack_address())); o.knum("mstart", cap(M.mmap_start())); o.knum("maddr", cap(M.mmap_address())); o.knum("arena", cap(as));
				rle(o, "mem", M.arena_ptr(), M.arena_ptr() ? as + 64 : 0);
				// symbols: every name of the file, some that are not, and addresses around every symbol
				std::set<std::string> names; std::set<u64> addrs;
				for (auto* v : {&e.syms, &e.dyns}) for (auto& s : *v) { names.insert(s.name); for (i64 d : {-1, 0, 1}) { addrs.insert(s.value + d); addrs.insert(s.value + s.size + d); } addrs.insert(s.value + s.size / 2); }
				names.insert("nosuch"); names.insert("");
				o.karr("names"); for (auto& n : names) { o.obj(); o.karr("n"); for (u8 c : n) o.num(c); o.end(); o.key("a"); o.bytes(M.address_of(n)); o.eobj(); } o.end();
				o.karr("addrs"); for (u64 a : addrs) { auto* s = M.lookup_symbol(a); o.obj(); o.key("at"); o.bytes(a); o.kbool("hit", s != nullptr); o.key("a"); o.bytes(s ? s->address : 0); o.key("z"); o.bytes(s ? s->size : 0); o.karr("n"); if (s) for (u8 c : s->name) o.num(c); o.end(); o.eobj(); } o.end();
				// does the program run from its entry point?
				std::string run = "ok";
				try { m->cpu.registers().pc = M.start_address(); m->simulate(1000); } catch (const MachineException& x) { run = exname(x.type()); }
				o.kstr("run", run); o.knum("a0", cap(m->cpu.reg(REG_A0))); o.knum("icnt", cap(m->instruction_counter()));
				if (mode == "stack") {
					stacks++;
					// a second machine, so that running has not touched the stack
					MachineOptions opt2 = opt; opt2.custom_arena_pointer = nullptr; opt2.custom_arena_size = 0;
					Machine m2(ex.view(), opt2); auto& M2 = m2.memory;
					std::vector<std::string> args, env; int na = 1 + r.below(5), ne = r.below(6); int ml = r.chance(1, 4) ? 300 : 24;
					for (int i = 0; i < na; i++) args.push_back(randstr(ml)); for (int i = 0; i < ne; i++) env.push_back(randstr(ml));
					if (r.chance(1, 10)) args.clear();
					std::vector<u8> before(M2.arena_ptr(), M2.arena_ptr() + M2.arena_size());
					std::string sx = "ok"; try { m2.setup_linux(args, env); } catch (const MachineException& x) { sx = exname(x.type()); } catch (...) { sx = "other"; }
					o.key("su"); o.obj(); o.kstr("out", sx);
					auto strs = [&](const char* k, std::vector<std::string>& v) { o.karr(k); for (auto& s : v) { o.arr(); for (u8 c : s) o.num(c); o.end(); } o.end(); };
					strs("args", args); strs("env", env);
					u64 sp = m2.cpu.reg(REG_SP), top = M2.stack_address(); o.knum("sp", cap(sp)); o.knum("top", cap(top));
					bool below = false, above = false; u64 base = top - opt.stack_size;
					for (size_t i = 0; i < before.size(); i++) if (M2.arena_ptr()[i] != before[i]) { if (i < base) below = true; if (i >= top) above = true; }
					o.kbool("below", below); o.kbool("above", above);
					o.karr("bytes"); if (sx == "ok" && sp <= top && top <= M2.arena_size()) for (u64 i = sp; i < top; i++) o.num(M2.arena_ptr()[i]); o.end();
					// what the auxiliary vector's program header address shows
					u64 ph = 0; if (sx == "ok" && sp <= top) for (u64 p = sp + 8 * (1 + args.size() + 1 + env.size() + 1); p + 16 <= top; p += 16) { u64 t, v; memcpy(&t, M2.arena_ptr() + p, 8); memcpy(&v, M2.arena_ptr() + p + 8, 8); if (t == 3) ph = v; if (t == 0) break; }
					o.karr("phdrs"); u64 pn = 56 * e.segs.size(); if (ph + pn <= M2.arena_size() && ph < M2.arena_size()) for (u64 i = 0; i < pn; i++) o.num(M2.arena_ptr()[ph + i]); o.end();
					o.eobj();
					emit((o.eobj(), o));
					g_now = "destroying the second machine"; /* m2 is destroyed at the end of this block */
				} else emit((o.eobj(), o));
			} else { rejected++; emit((o.eobj(), o)); }
			alarm(0);
			m.reset();
		}
		ar.drop();
	}
	if (mode == "bad") { // files refused at every stage of loading must not keep memory
		auto vm = [] { std::ifstream f("/proc/self/statm"); u64 n = 0; f >> n; return n / 256; };
		MachineOptions opt; opt.memory_max = 256u << 20; opt.use_shared_execute_segments = false;
		u64 before = vm(), refused = 0;
		for (int i = 0; i < 400 && refused < 24; i++) {
			u32 magic; ElfSpec e = gen(4096 * 12, magic); e.build(r);
			Seg s{}; s.type = 1; s.flags = 4; s.vaddr = 4096 * 20; s.filesz = s.memsz = 1 << 20; s.off = r.below(4000); s.has_off = true; e.segs.push_back(s);
			e.phoff = 64; auto f = e.build(r); f.resize(std::min<size_t>(f.size(), 60000)); Exact ex(f);
			try { Machine m(ex.view(), opt); } catch (const std::exception&) { refused++; }
		}
		Out o; o.obj(); o.kstr("op", "leak"); o.knum("refused", refused); o.knum("mb", 256); o.knum("grown", (i64)(vm() - before)); o.eobj(); emit(o);
	}
	printf("DRIVER cases=%zu\n", ncase); printf("DRIVER files=%lu\nDRIVER loaded=%lu\nDRIVER rejected=%lu\nDRIVER stacks=%lu\n", files, loaded, rejected, stacks);
	fclose(g_out);
}
