// The accelerated C library routines: system calls on machines with tiny arenas, and patched functions
// called by guest code and by the host, in every engine that honours patches. Judged by spec/CLibTrace.tla.
// mode=all enumerates every call on one tiny arena.
#include "elfgen.hpp"
static u64 g_ops = 0;
static const char* OPS[] = {"strlen", "strnlen", "strcmp", "strncmp", "memchr", "memcpy", "memset", "memcmp", "memmove"};
static const int NR[] = {500, 501, 502, 503, 507, 508, 509, 510, 511};
static const std::vector<std::vector<const char*>> NAMES = {
	{"__strlen_lsx", "__strlen_lasx", "__strlen_aligned"}, {"__strnlen_lsx", "__strnlen_lasx", "__strnlen_aligned"}, {"__strcmp_lsx", "__strcmp_lasx", "__strcmp_aligned"},
	{"__strncmp_lsx", "__strncmp_lasx", "__strncmp_aligned"}, {"__memchr_lsx", "__memchr_lasx", "__memchr_aligned"}, {"__memcpy_lsx", "__memcpy_lasx", "__memcpy_aligned", "__memcpy_unaligned"},
	{"__memset_lsx", "__memset_lasx", "__memset_aligned", "__memset_unaligned"}, {"__memcmp_lsx", "__memcmp_lasx", "__memcmp_aligned"}, {"__memmove_lsx", "__memmove_lasx", "__memmove_aligned", "__memmove_unaligned"}};
static const u32 RET = 0x4C000020, STOP = 0x00150000, SYSCALL = 0x002B0000;
struct Win { u64 at; std::vector<u8> b; };
struct World {
	std::unique_ptr<Machine> m; std::vector<u8> file; std::shared_ptr<MachineOptions> opt; u64 size, ro, rw; u8 fill; std::vector<Win> win; std::vector<u8> shadow; bool elf = false; u64 callers = 0, code = 0;
	u8* A() { return (u8*)m->memory.arena_ptr(); }
	void sync() { shadow.assign(A(), A() + size + 64); }
	void put(u64 at, std::vector<u8> b) { // windows stay disjoint
		if (at < ro || at + b.size() > size) return;
		for (auto& w : win) if (at < w.at + w.b.size() && w.at < at + b.size()) return;
		memcpy(A() + at, b.data(), b.size()); win.push_back({at, b});
	}
	void clear() { memset(A() + ro, fill, size + 64 - ro); if (!elf && ro) memset(A(), fill, ro); win.clear(); }
};
static u32 bl(i64 d) { u32 o = (u32)(d / 4); return 0x54000000 | (o & 0xffff) << 10 | ((o >> 16) & 0x3ff); }
static void tiny(World& w, Rng& r, u64 size, u64 ro, u64 rw) {
	w.elf = false; w.opt = std::make_shared<MachineOptions>(); w.opt->use_shared_execute_segments = false;
	w.m = std::make_unique<Machine>(std::string_view{}, *w.opt); w.m->set_options(w.opt); w.m->memory.allocate_custom_arena(size, ro, rw);
	w.size = size; w.ro = ro; w.rw = rw; w.m->setup_accelerated_syscalls();
	w.code = 1ull << 40; u32 code[] = {SYSCALL, 0x03800000u | 77u << 10 | 23, STOP}; // ori s0, zero, 77
	w.m->cpu.init_execute_area(code, w.code, sizeof code);
}
static void elf(World& w, Rng& r, u64 memory_max) {
	w.elf = true; ElfSpec e; Seg c{}; c.type = 1; c.flags = 5; c.vaddr = 0x10000; std::vector<u32> code; std::vector<std::pair<const char*, u64>> fn;
	auto here = [&] { return 0x10000 + 4 * code.size(); };
	auto name = [&](const char* n, u64 at) { fn.push_back({n, at}); e.syms.push_back({n, 0x12, at, 4}); };
	name("fast_exit", here()); code.push_back(STOP); while (r.chance(1, 2)) code.push_back(RET);
	std::vector<std::vector<u64>> at(9);
	for (int k = 0; k < 9; k++) for (auto n : NAMES[k]) if (n == NAMES[k][0] || r.chance(2, 3)) { at[k].push_back(here()); name(n, here()); code.push_back(STOP); while (r.chance(1, 3)) code.push_back(STOP); code.push_back(RET); }
	w.callers = here();
	// one caller per function: bl f; ori s0, zero, 77; stop -- sometimes reached through other code
	for (int k = 0; k < 9; k++) for (u64 f : at[k]) { code.push_back(bl((i64)f - (i64)here())); code.push_back(0x03800000u | 77u << 10 | 23); code.push_back(STOP); code.push_back((u32)k); }
	c.data.resize(4 * code.size()); memcpy(c.data.data(), code.data(), c.data.size()); c.filesz = c.memsz = c.data.size(); e.segs.push_back(c);
	e.entry = 0x10000; w.file = e.build(r);
	MachineOptions opt; opt.brk_size = 4096; opt.stack_size = 4096; opt.memory_max = memory_max; opt.use_shared_execute_segments = r.chance(1, 2);
	w.m = std::make_unique<Machine>(std::string_view((char*)w.file.data(), w.file.size()), opt);
	w.m->memory.set_exit_address(w.m->address_of("fast_exit")); w.m->setup_accelerated_syscalls();
	w.size = w.m->memory.arena_size(); w.ro = w.m->memory.rodata_start(); w.rw = w.m->memory.data_start();
}
// via: host (system_call), guest (syscall instruction), call (patched function called by guest code), vmcall
static void call(World& w, Rng& r, int k, u64 a0, u64 a1, u64 a2, const char* via) {
	auto& m = *w.m; auto& cpu = m.cpu; char t[200]; snprintf(t, sizeof t, "%s via %s 0x%lx 0x%lx 0x%lx arena %lu/%lu/%lu", OPS[k], via, a0, a1, a2, w.ro, w.rw, w.size); g_now = t; alarm(60);
	std::string out = "ok"; u64 ret = 0; bool kept = true, cont = true; std::string v = via;
	for (int i = 1; i < 32; i++) cpu.reg(i) = r.next();
	u64 sp = m.memory.stack_address() & ~15ull; cpu.reg(REG_SP) = sp;
	cpu.reg(23) = 5; u64 before[32]; for (int i = 0; i < 32; i++) before[i] = cpu.reg(i);
	try {
		if (v == "host") { cpu.reg(REG_A0) = a0; cpu.reg(REG_A1) = a1; cpu.reg(REG_A2) = a2; m.system_call(NR[k]); ret = cpu.reg(REG_A0); }
		else if (v == "vmcall") {
			const char* n = nullptr; while (!n || !m.address_of(n)) n = NAMES[k][r.below(NAMES[k].size())];
			if (r.chance(1, 2)) ret = r.chance(1, 2) ? m.vmcall<u64>(n, a0, a1, a2) : m.vmcall<u64, 100000>(n, a0, a1, a2); else ret = m.vmcall<u64>(m.address_of(n), a0, a1, a2);
		} else {
			u64 pc = w.code;
			if (v == "call") { std::vector<u64> c; for (u64 a = w.callers;; a += 16) { u64 o = a - 0x10000; const u8* f = w.file.data(); u64 off = *(u64*)(f + 64 + 8); u64 fs = *(u64*)(f + 64 + 32); if (o + 16 > fs) break; u32 kk; memcpy(&kk, f + off + o + 12, 4); if ((int)kk == k) c.push_back(a); } pc = r.pick(c); }
			else { cpu.reg(REG_A7) = NR[k]; before[REG_A7] = NR[k]; }
			cpu.reg(REG_A0) = a0; cpu.reg(REG_A1) = a1; cpu.reg(REG_A2) = a2; cpu.jump(pc);
						if (r.chance(1, 2)) m.simulate(1000); else cpu.simulate_inaccurate(pc);
			ret = cpu.reg(REG_A0); cont = cpu.reg(23) == 77;
			for (int i : {2, 3, 21, 22, 24, 25, 26, 27, 28, 29, 30, 31}) kept &= cpu.reg(i) == before[i];
		}
		if (v == "vmcall" || v == "host") for (int i : {2, 3, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}) if (i != 3 || v == "host") kept &= cpu.reg(i) == before[i];
	} catch (const MachineException& e) { out = exname(e.type()); } catch (const std::exception& e) { out = std::string("exception ") + e.what(); }
	g_ops++;
	Out o; o.obj(); o.kstr("op", OPS[k]); o.kstr("via", via); o.kbytes("a0", a0); o.kbytes("a1", a1); o.kbytes("a2", a2); o.knum("size", w.size); o.knum("ro", w.ro); o.knum("rw", w.rw); o.knum("fill", w.fill);
	auto runs = [&](const char* key, const std::vector<Win>& ws) { o.karr(key); for (auto& x : ws) { o.obj(); o.knum("at", x.at); o.karr("b"); for (u8 c : x.b) o.num(c); o.end(); o.eobj(); } o.end(); };
	runs("win", w.win); o.kstr("out", out); o.kbytes("ret", ret); o.kbool("kept", kept); o.kbool("cont", cont);
	std::vector<Win> post; u8* a = w.A(); u64 end = w.size + 64;
	if (memcmp(a, w.shadow.data(), end)) for (u64 i = 0; i < end; i++) if (a[i] != w.shadow[i]) { if (post.empty() || post.back().at + post.back().b.size() != i) post.push_back({i, {}}); post.back().b.push_back(a[i]); }
	runs("post", post); emit((o.eobj(), o));
	if (!post.empty()) memcpy(a, w.shadow.data(), end); // each call starts from the same memory
}
static std::vector<u8> text(Rng& r, u64 n, bool ends) { // few distinct bytes, so that strings have long common prefixes
	std::vector<u8> b(n); u8 c = r.chance(1, 2) ? 'a' : 0xE0; for (auto& x : b) x = r.chance(1, 10) ? (u8)r.next() : r.chance(1, 8) ? (r.chance(1, 2) ? 0x7F : 0x80) : c;
	for (auto& x : b) if (!x && !r.chance(1, 3)) x = 1; if (ends && n) b[n - 1 - r.below(std::min<u64>(n, 3))] = 0; return b;
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 100), of = argn(argc, argv, "of", 8), size0 = argn(argc, argv, "size", 5); std::string mode = arg(argc, argv, "mode", "tiny");
	Rng r(seed * 7919 + shard * 104729 + 3);
	if (mode == "all") { // every call on an arena of a few bytes
		for (u64 i = 0; i < count; i++) {
			World w; w.fill = 9; tiny(w, r, size0, r.below(2), 1 + r.below(2)); w.clear(); std::vector<u8> b(size0 - w.ro); for (auto& x : b) x = std::vector<u8>{0, 1, 1, 200, 200}[r.below(5)]; w.put(w.ro, b); w.sync();
			u64 k = 0; for (int op = 0; op < 9; op++) for (i64 p = -1; p <= (i64)size0 + 1; p++) for (i64 q = -1; q <= (i64)size0 + 1; q++) for (i64 n = -1; n <= (i64)size0 + 1; n++) {
				if ((op == 0 && (q > -1 || n > -1)) || (op == 1 && n > -1) || (op == 2 && n > -1)) continue;
				if (k++ % of != shard) continue; call(w, r, op, p, (op == 4 || op == 6) ? (q == 3 ? 200 : q == 4 ? 0x1C8 : q) : (u64)q, n, r.chance(1, 3) ? "guest" : "host"); }
		}
	} else for (u64 i = 0; i < count; i++) {
		World w; bool e = mode == "elf"; w.fill = r.chance(1, 3) ? 0x80 + r.below(128) : 1 + r.below(127); u64 S;
		if (e) elf(w, r, 65536 * (2 + r.below(3))); else { S = 30 + r.below(200); u64 ro = r.chance(1, 4) ? 0 : r.below(S / 2); tiny(w, r, S, ro, ro + r.below(S / 2)); }
		S = w.size;
		for (u64 k = 0; k < (e ? 12u : 6u); k++) {
			w.clear(); std::vector<u64> spots;
			auto add = [&](u64 at, std::vector<u8> b) { size_t n = w.win.size(); w.put(at, b); if (w.win.size() > n) spots.push_back(at); };
			std::vector<u8> t = text(r, 1 + r.below(e ? 90 : 20), r.chance(3, 4)), u = t; if (r.chance(3, 4)) u[r.below(u.size())] ^= 1 << r.below(8); if (r.chance(1, 3)) u.resize(1 + r.below(u.size())), u.back() = r.chance(1, 2) ? 0 : u.back();
			u64 gap = e && r.chance(1, 4) ? 3990 + r.below(4000) : r.below(e ? 300 : 10);
			u64 p0 = w.rw + r.below(e ? (r.chance(1, 2) ? 100 : S - w.rw - 9000) : S - w.rw); add(p0, t); add(p0 + t.size() + gap, u);
			if (r.chance(1, 2)) { auto x = text(r, 1 + r.below(12), r.chance(1, 3)); add(S - x.size(), x); }
			if (r.chance(1, 3)) add(w.ro, text(r, 1 + r.below(12), r.chance(1, 2)));
			w.sync();
			u64 far = p0 + t.size() + gap + u.size();
			for (u64 j = 0; j < (e ? 8u : 14u); j++) {
				auto addr = [&]() -> u64 { switch (r.below(10)) { case 0: return r.word(); case 1: return S - r.below(12); case 2: return S + r.below(3); case 3: return w.rw - 3 + r.below(6); case 4: return w.ro - 3 + r.below(6); case 5: return spots.empty() ? p0 : r.pick(spots) - r.below(20);
					case 6: return w.rw + r.below(S - w.rw); default: return spots.empty() ? p0 : r.pick(spots) + (r.chance(1, 2) ? 0 : r.below(8)); } };
				u64 a = addr(), b = addr(), n; int op = r.below(9); if (r.chance(1, 8)) b = a + r.below(40) - 20;
				switch (r.below(8)) { case 0: n = r.word(); break; case 1: n = 0; break; case 2: n = S - a - 2 + r.below(4); break; case 3: n = S - b - 2 + r.below(4); break; case 4: n = far - a; break; default: n = r.below(60); }
				if (r.chance(1, 2)) { b = p0 + t.size() + gap; a = p0; u64 d = r.below(3) ? 0 : r.below(5); a += d; b += d; if (r.chance(1, 2)) std::swap(a, b); if (r.chance(1, 4)) n = ~0ull - r.below(3); else if (r.chance(2, 3)) n = r.below(t.size() + 4); }
				bool write = op == 5 || op == 6 || op == 8; if (write && e && n > 300 && n < S && !r.chance(1, 6)) n %= 300;
				if (op == 4 || op == 6) { b = r.chance(1, 4) ? 0 : t[r.below(t.size())]; if (op == 4 && b == w.fill) b ^= 1; if (r.chance(1, 3)) b |= r.next() << 8; }
				if (op == 1) { b = n; n = r.next(); } else if (op == 0) b = r.next();
				const char* via = e ? std::vector<const char*>{"call", "call", "vmcall", "host"}[r.below(4)] : r.chance(1, 3) ? "guest" : "host";
				call(w, r, op, a, b, n, via);
			}
		}
	}
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
