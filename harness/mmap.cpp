// Memory mapping requests by the guest (system calls) and the host, on a real machine with a small arena.
// paths=FILE of=N shard=I replays operation sequences of the model; otherwise random histories.
#include "elfgen.hpp"
#include <fstream>
#include <sstream>

struct Sim {
	std::unique_ptr<Machine> m; std::vector<u8> file; int tag = 1; Rng& r; u64 S, A; std::string path; u64 ops = 0;
	Sim(Rng& rr) : r(rr) {}
	void sig(Out& o) {
		o.karr("sig");
		for (u64 p = 0; p < A; p++) {
			const u8* b = m->memory.arena_ptr() + 4096 * p; bool uni = true;
			for (int i = 1; i < 4096; i++) if (b[i] != b[0]) { uni = false; break; }
			if (uni) o.num(b[0]); else { u64 h = 1469598103934665603ull; for (int i = 0; i < 4096; i++) h = (h ^ b[i]) * 1099511628211ull; o.num(256 + (h >> 36)); }
		}
		o.end();
	}
	void start(u64 pages, u64 brk, u64 stack) {
		ElfSpec e; Seg c{}; c.type = 1; c.flags = 5; c.vaddr = 0x1000; for (int i = 0; i < 64; i++) c.data.push_back(r.next()); c.filesz = c.memsz = 64; e.segs.push_back(c);
		Seg d{}; d.type = 1; d.flags = 6; d.vaddr = 0x2000; for (int i = 0; i < 5000; i++) d.data.push_back(r.next()); d.filesz = 5000; d.memsz = 6000; e.segs.push_back(d);
		e.entry = 0x1000; e.sections = false; file = e.build(r);
		MachineOptions opt; opt.brk_size = brk; opt.stack_size = stack; opt.use_shared_execute_segments = false;
		u64 b = 4 + (brk + 4095) / 4096 + (stack + 4095) / 4096; opt.memory_max = 4096 * (b + pages);
		m = std::make_unique<Machine>(std::string_view((char*)file.data(), file.size()), opt);
		m->setup_linux({"prog"}, {"A=b"}); m->setup_linux_syscalls();
		// data of the program's own in break area and stack
		auto& M = m->memory; u8 x[128]; for (auto& v : x) v = r.next();
		if (brk >= 128) M.copy_to_guest(M.heap_address(), x, 128); if (stack >= 2048) M.copy_to_guest(M.stack_address() - stack, x, 128);
		A = M.arena_size() / 4096; S = M.mmap_start() / 4096; tag = 1; path = "";
		Out o; o.obj(); o.kstr("op", "start"); o.knum("A", A); o.knum("S", S); fin(o, true, 0, 0, 0);
	}
	void fin(Out& o, bool ok, u64 res, u64 a, u64 n) { o.kbool("ok", ok); o.key("res"); o.bytes(res); o.key("a"); o.bytes(a); o.key("n"); o.bytes(n); o.kstr("path", path.size() > 400 ? path.substr(path.size() - 400) : path); sig(o); emit((o.eobj(), o)); ops++; }
	void fill(u64 a, u64 n) {
		u64 e = (a + n + 4095) & ~4095ull; if (n == 0 || e > m->memory.arena_size() || a % 4096) return;
		tag = tag % 255 + 1; m->memory.memset(a, tag, e - a);
		Out o; o.obj(); o.kstr("op", "fill"); o.knum("tag", tag); fin(o, true, 0, a, n);
	}
	u64 call(int nr, u64 a0, u64 a1, u64 a2 = 0, u64 a3 = 0, u64 a4 = 0, u64 a5 = 0, bool* threw = nullptr) {
		u64 v[] = {a0, a1, a2, a3, a4, a5}; for (int i = 0; i < 6; i++) m->cpu.reg(REG_A0 + i) = v[i];
		m->cpu.reg(REG_A7) = nr;
		try { m->system_call(nr); } catch (const MachineException&) { if (threw) *threw = true; }
		return m->cpu.reg(REG_A0);
	}
	void step(const std::string& op, u64 a, u64 n, int fixed, int anon) {
		g_now = op + " a=" + std::to_string(a) + " n=" + std::to_string(n) + " after " + path; path += op.substr(0, 3) + "(" + std::to_string(a) + "," + std::to_string(n) + (op == "mmap" ? fixed ? ",F" : "" : "") + ");";
		Out o; o.obj(); o.kstr("op", op); bool threw = false; u64 res = 0; bool ok = true;
		if (op == "mmap") {
			res = call(222, a, n, 3, 2 | (fixed ? 0x10 : 0) | (anon ? 0x20 : 0), anon ? ~0ull : 5, 0, &threw);
			ok = !threw && !(res > ~0ull - 4096); o.knum("fixed", fixed); o.knum("anon", anon);
		} else if (op == "munmap") { res = call(215, a, n, 0, 0, 0, 0, &threw); ok = !threw && !(res > ~0ull - 4096); }
		else if (op == "alloc") { try { res = m->memory.mmap_allocate(n); } catch (const MachineException&) { ok = false; } }
		else if (op == "dealloc") { try { m->memory.mmap_deallocate(a, n); } catch (const MachineException&) { ok = false; } }
		else if (op == "brk") { res = call(214, a, 0, 0, 0, 0, 0, &threw); ok = !threw; }
		else if (op == "mprotect") { res = call(226, a, n, 1, 0, 0, 0, &threw); ok = !threw; }
		fin(o, ok, ok ? res : 0, a, n);
		if (ok && (op == "mmap" || op == "alloc")) fill(res, n);
	}
};
int main(int argc, char** argv)
{
	common_init(arg(argc, argv, "out", ""));
	u64 count = argn(argc, argv, "count", 20), per = argn(argc, argv, "per", 60), seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0), of = argn(argc, argv, "of", 8);
	Rng r(seed * 977 + shard); u64 total = 0, hist = 0;
	const char* pf = arg(argc, argv, "paths", nullptr);
	if (pf) {
		std::ifstream f(pf); std::string line; u64 k = 0; if (!f) return 3;
		while (std::getline(f, line)) {
			if (k++ % of != shard || line.empty()) continue;
			Sim s(r); std::vector<std::map<std::string, std::string>> ops; std::stringstream ls(line); std::string w;
			while (std::getline(ls, w, ';')) { std::stringstream ws(w); std::map<std::string, std::string> mp; std::string t; ws >> t; mp["op"] = t; while (ws >> t) { auto q = t.find('='); mp[t.substr(0, q)] = t.substr(q + 1); } ops.push_back(mp); }
			// the model's area starts at page 3; here it starts behind image, break area and stack
			s.start(argn(argc, argv, "area", 4), 4096, 4096); hist++;
			auto num = [&](const std::string& x) { u64 v = strtoull(x.c_str(), nullptr, 0); return v; };
			for (auto& o : ops) { u64 a = num(o["a"]), n = num(o["n"]); if (a) a = a + 4096 * s.S - 4096 * 3; if (n == 1073741824) n = r.chance(1, 2) ? n : ~0ull - r.below(9000); s.step(o["op"], a, n, num(o["fixed"]), 1); }
			total += s.ops;
		}
	} else for (u64 h = 0; h < count; h++) {
		Sim s(r); u64 pages = 1 + r.below(24); s.start(pages, r.pick(std::vector<u64>{0, 4096, 5000, 8192}), r.pick(std::vector<u64>{2048, 4096, 6000, 8192})); hist++;
		std::vector<std::pair<u64, u64>> got;
		for (u64 i = 0; i < per; i++) {
			auto len = [&]() -> u64 { switch (r.below(12)) { case 0: return r.word(); case 1: return 0; case 2: return s.m->memory.arena_size() - std::min<u64>(s.m->memory.arena_size(), s.m->memory.mmap_address()) + (i64)(r.below(3)) * 4096 - 4096; case 3: return ~0ull - r.below(8193); case 4: return 1; default: return r.chance(1, 3) ? 1 + r.below(3 * 4096) : 4096 * (1 + r.below(4)); } };
			auto at = [&]() -> u64 { switch (r.below(10)) { case 0: return r.word(); case 1: return r.below(s.A + 3) * 4096 + r.below(3) * 8; case 2: return s.m->memory.mmap_address() - 4096 * r.below(3); case 3: return s.S * 4096 - 4096 * r.below(2); default: if (!got.empty()) { auto& g = r.pick(got); return g.first + (r.chance(1, 4) ? 4096 * r.below(3) : 0); } return r.below(s.A) * 4096; } };
			u64 before = s.m->memory.mmap_address();
			switch (r.below(12)) {
			case 0: case 1: case 2: case 3: s.step("mmap", r.chance(1, 4) ? at() : 0, len(), 0, r.chance(7, 8)); break;
			case 4: case 5: { u64 a = at(); if (a == 0) a = 4096 * s.S; s.step("mmap", a, len(), 1, r.chance(3, 4)); break; }
			case 6: case 7: s.step("munmap", at(), len(), 0, 0); break;
			case 8: if (!got.empty()) { auto g = r.chance(1, 2) ? got.back() : r.pick(got); s.step(r.chance(1, 3) ? "dealloc" : "munmap", g.first, g.second, 0, 0); } break;
			case 9: s.step("alloc", 0, len(), 0, 0); break;
			case 10: s.step("dealloc", at(), len(), 0, 0); break;
			default: if (r.chance(1, 2)) s.step("brk", r.chance(1, 2) ? at() : s.m->memory.heap_address() + r.below(9000), 0, 0, 0); else s.step("mprotect", at(), len(), 0, 0); break;
			}
			u64 now = s.m->memory.mmap_address(); if (now > before) got.push_back({before, now - before});
		}
		total += s.ops;
	}
	printf("DRIVER histories=%lu\nDRIVER operations=%lu\n", hist, total);
	fclose(g_out);
}
