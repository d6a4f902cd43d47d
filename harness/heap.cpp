// Requests to the native heap by the guest (system calls, patched functions) and by the host.
// paths=FILE of=N shard=I replays operation sequences of the model; otherwise random histories.
#include "elfgen.hpp"
#include <libloong/native/heap.hpp>
#include <fstream>
#include <sstream>

static const u32 STOP = 0x00150000, RET = 0x4C000020; // jirl zero, ra, 0
static std::vector<u8> guest_file(Rng& r) {
	ElfSpec e; Seg c{}; c.type = 1; c.flags = 5; c.vaddr = 0x1000; c.data.resize(256);
	for (int i = 0; i < 64; i++) memcpy(&c.data[4 * i], i % 8 == 4 ? &RET : &STOP, 4);
	c.filesz = c.memsz = 256; e.segs.push_back(c);
	const char* n[] = {"fast_exit", "malloc", "calloc", "realloc", "free"};
	for (int i = 0; i < 5; i++) e.syms.push_back({n[i], 0x12, 0x1000ull + 32 * i + (i ? 16 : 0), 4});
	e.entry = 0x1000; return e.build(r);
}
struct Sim {
	Rng& r; std::vector<u8> file; std::unique_ptr<Machine> m; std::unique_ptr<Arena> own; Arena* h = nullptr;
	u64 base = 0, size = 0, top = 0; bool content = true; int tag = 0; std::string path; u64 ops = 0; u64 out0 = 0;
	explicit Sim(Rng& rr) : r(rr) {}
	u64 outside() { // everything in guest memory but the heap and the stack
		u64 x = 1469598103934665603ull; auto& M = m->memory; const u8* b = M.arena_ptr();
		for (u64 a = 0x1000; a < 0x1100; a++) x = (x ^ b[a]) * 1099511628211ull;
		for (u64 a = base - 64; a < top + 64; a++) if (a < base || a >= base + size) x = (x ^ b[a]) * 1099511628211ull;
		return x;
	}
	void start(u64 sz, unsigned maxc, bool alone, u64 alone_base) {
		alarm(30); size = sz; path = ""; tag = 0; content = !alone;
		if (alone) { base = alone_base; own = std::make_unique<Arena>(base, base + size); h = own.get(); m.reset(); }
		else {
			file = guest_file(r); MachineOptions opt; opt.brk_size = 4096; opt.stack_size = 4096; opt.use_shared_execute_segments = false; opt.memory_max = 65536;
			m = std::make_unique<Machine>(std::string_view((char*)file.data(), file.size()), opt);
			m->memory.set_exit_address(m->address_of("fast_exit"));
			base = m->memory.mmap_allocate(16384) + 4096; top = base + size;
			for (u64 a = base - 64; a < top + 64; a++) m->memory.write<u8>(a, r.next());
			m->setup_accelerated_heap(base, size); h = &m->arena(); out0 = outside();
		}
		if (maxc) h->set_max_chunks(maxc);
		Out o; o.obj(); o.kstr("op", "start"); o.kstr("via", m ? "guest" : "alone"); o.kbool("ok", true); o.kbool("chunked", false); o.knum("size", size); o.knum("maxc", maxc ? maxc : 4000); mem(o); emit((o.eobj(), o));
	}
	void mem(Out& o) { o.karr("mem"); if (content) { const u8* b = m->memory.arena_ptr() + base; for (u64 i = 0; i < size; i++) o.num(b[i]); } o.end(); }
	i64 rel(u64 p) { return p >= base && p - base < size ? (i64)(p - base) : -1; }
	u64 sysc(int nr, u64 a0, u64 a1, bool& exc, bool& chunked) {
		m->cpu.reg(REG_A0) = a0; m->cpu.reg(REG_A1) = a1; m->cpu.reg(REG_A7) = nr;
		try { m->system_call(nr); } catch (const MachineException& e) { exc = true; chunked = e.type() == INVALID_PROGRAM; return 0; }
		return m->cpu.reg(REG_A0);
	}
	u64 fcall(const char* f, u64 a0, u64 a1, bool& exc, bool& chunked) {
		try { return r.chance(1, 2) ? m->vmcall<u64>(f, a0, a1) : m->vmcall<u64, 1000>(f, a0, a1); }
		catch (const MachineException& e) { exc = true; chunked = e.type() == INVALID_PROGRAM; return 0; }
	}
	// p: absolute address; c only for calloc. Returns the new address, 0 if none
	u64 step(const std::string& op, const std::string& via, u64 p, u64 c, u64 n) {
		g_now = op + " " + via + " p=" + std::to_string(p) + " n=" + std::to_string(n) + " after " + path;
		path += op.substr(0, 3) + via.substr(0, 1) + "(" + (op == "malloc" || op == "calloc" ? "" : std::to_string(rel(p)) + ",") + std::to_string(n) + (op == "calloc" ? "x" + std::to_string(c) : "") + ");";
		bool exc = false, chunked = false, ok = true; u64 res = 0; u64 told[3] = {0, 0, 0};
		if (via == "host") {
			try {
				if (op == "malloc") { res = h->malloc(n); ok = res != 0; }
				else if (op == "realloc") {
					auto [d, l] = h->realloc(p, n); res = d; ok = d != 0;
					if (content && d && d != p && l) { std::vector<u8> t(l); m->memory.copy_from_guest(t.data(), p, l); m->memory.copy_to_guest(d, t.data(), std::min<u64>(l, n)); }
				} else if (op == "free") ok = h->free(p) == 0;
			} catch (const MachineException& e) { ok = false; chunked = e.type() == INVALID_PROGRAM; }
		} else if (op == "meminfo") {
			u64 at = p ? m->memory.heap_address() + 8 * r.below(9) : 0; m->memory.memset(m->memory.heap_address(), 0x5a, 512);
			bool wild = at && r.chance(1, 5); if (wild) at += 1ull << (22 + r.below(42)); // nowhere: the same as no place, and nothing is written
			u64 rr = sysc(499, at, 0, exc, chunked); ok = !exc && rr == 0;
			if (wild) { if (exc) rr = ~0ull; exc = false; at = p = 0; std::vector<u8> t(512); m->memory.copy_from_guest(t.data(), m->memory.heap_address(), 512); for (u8 x : t) ok |= x != 0x5a; } if (!exc && rr != 0 && rr != ~0ull) exc = true;
			if (at) m->memory.copy_from_guest(told, at, 24);
			if (exc) path += "THREW";
		} else {
			bool sy = via == "sys";
			if (op == "malloc") res = sy ? sysc(495, n, 0, exc, chunked) : fcall("malloc", n, 0, exc, chunked);
			if (op == "calloc") res = sy ? sysc(496, c, n, exc, chunked) : fcall("calloc", c, n, exc, chunked);
			if (op == "realloc") res = sy ? sysc(497, p, n, exc, chunked) : fcall("realloc", p, n, exc, chunked);
			if (op == "free") sy ? sysc(498, p, 0, exc, chunked) : fcall("free", p, 0, exc, chunked);
			ok = !exc && (op == "free" || res != 0);
		}
		bool alloc = op != "free" && op != "meminfo"; if (!alloc) res = 0;
		tag = (tag + 37) % 256;
		Out o; o.obj(); o.kstr("op", op); o.kstr("via", via); o.kbool("ok", ok); o.kbool("chunked", chunked); o.kbool("null", p == 0);
		o.knum("at", rel(p)); o.key("n"); o.bytes(n); o.key("c"); o.bytes(c); o.knum("pos", ok && alloc ? rel(res) : -1);
		u64 g = ok && alloc ? h->size(res) : 0; o.knum("g", std::min<u64>(g, 1 << 30)); o.knum("tag", tag);
		o.karr("told"); for (u64 t : told) o.num(std::min<u64>(t, 1 << 30)); o.end();
		o.key("acc"); o.obj(); o.knum("free", std::min<u64>(h->bytes_free(), 1 << 30)); o.knum("used", std::min<u64>(h->bytes_used(), 1 << 30)); o.knum("chunks", h->chunks_used()); o.knum("allocs", h->allocation_counter()); o.knum("deallocs", h->deallocation_counter()); o.eobj();
		if (content && outside() != out0) path += "MEMORY OUTSIDE THE HEAP CHANGED", o.s.replace(o.s.find("\"pos\":"), 6, "\"pos\":-9"), out0 = outside();
		o.kstr("path", path.size() > 500 ? path.substr(path.size() - 500) : path); mem(o); emit((o.eobj(), o)); ops++;
		if (content && ok && alloc && rel(res) >= 0 && n <= size && c <= size) { u64 k = op == "calloc" ? c * n : n; if (rel(res) + k <= size) for (u64 i = 0; i < k; i++) m->memory.write<u8>(res + i, u8(tag + i + 1)); }
		return ok && alloc ? res : 0;
	}
};
int main(int argc, char** argv)
{
	common_init(arg(argc, argv, "out", ""));
	u64 count = argn(argc, argv, "count", 20), per = argn(argc, argv, "per", 80), seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0), of = argn(argc, argv, "of", 8);
	Rng r(seed * 977 + shard); u64 total = 0, hist = 0;
	const char* pf = arg(argc, argv, "paths", nullptr);
	if (pf) {
		std::ifstream f(pf); std::string line; u64 k = 0; if (!f) return 3; u64 size = 16 * argn(argc, argv, "granules", 6), maxc = argn(argc, argv, "maxc", 4);
		while (std::getline(f, line)) {
			if (k++ % of != shard || line.empty()) continue;
			Sim s(r); std::vector<std::map<std::string, std::string>> ops; std::stringstream ls(line); std::string w;
			while (std::getline(ls, w, ';')) { std::stringstream ws(w); std::map<std::string, std::string> mp; std::string t; ws >> t; mp["op"] = t; while (ws >> t) { auto q = t.find('='); mp[t.substr(0, q)] = t.substr(q + 1); } ops.push_back(mp); }
			bool alone = k % 4 != 0; s.start(size, maxc, alone, alone ? 16 + 16 * r.below(1ull << r.below(40)) : 0); hist++;
			for (auto& o : ops) {
				u64 n = strtoull(o["n"].c_str(), nullptr, 0), at = s.base + strtoull(o["at"].c_str(), nullptr, 0);
				if (n == 1073741824) { u64 big[] = {1073741824, ~0ull, ~0ull - 15, ~0ull - 16, 1ull << 63, (1ull << 32) + 16}; n = big[r.below(6)]; }
				std::string via = alone ? "host" : std::vector<std::string>{"sys", "call", "host"}[r.below(3)], op = o["op"];
				if (op == "malloc" && via != "host" && r.chance(1, 4)) s.step("calloc", via, 0, 1, n); else s.step(op, via, at, 1, n);
			}
			total += s.ops;
		}
	} else for (u64 h = 0; h < count; h++) {
		bool alone = r.chance(1, 3);
		Sim s(r); u64 size = r.chance(1, 12) ? 16 : 16 * (1 + r.below(alone ? 400 : 40)) + (r.chance(1, 6) ? r.below(16) : 0);
		s.start(size, r.chance(1, 4) ? 1 + r.below(12) : 0, alone, alone ? 16 + 16 * r.below(1ull << r.below(48)) : 0); hist++;
		std::map<u64, u64> live; std::vector<u64> dead; int mood = r.below(3);
		for (u64 i = 0; i < per; i++) {
			auto len = [&]() -> u64 { switch (r.below(14)) { case 0: return r.word(); case 1: return 0; case 2: return size; case 3: return ~0ull - r.below(40); case 4: return size - r.below(std::min<u64>(size, 40)); case 5: return 16 * (1 + r.below(4)); case 6: return (1ull << 32) + r.below(64);
				case 7: return s.h->bytes_free(); default: return 1 + r.below(r.chance(1, 4) ? 200 : 70); } };
			auto pick = [&]() -> u64 { if (live.empty()) return 0; auto it = live.begin(); std::advance(it, r.below(live.size())); return it->first; };
			auto bad = [&]() -> u64 { u64 p = pick(); switch (r.below(10)) { case 0: return r.word(); case 1: return p + 16; case 2: return p + 8; case 3: return p - 16; case 4: return p + (1ull << 32); case 5: return s.base; case 6: return s.base + size; case 7: return s.base - 16; case 8: return p ^ (1ull << 63); default: return dead.empty() ? s.base + 16 * r.below(40) : r.pick(dead); } };
			std::string via = alone ? "host" : std::vector<std::string>{"sys", "call", "host", "sys"}[r.below(4)];
			if (r.chance(1, 25)) mood = r.below(3);
			unsigned k = r.below(20);
			if (k < (mood == 0 ? 9u : mood == 1 ? 4u : 6u)) { u64 n = len(); u64 p;
				if (via != "host" && r.chance(1, 3)) { u64 c = 1; if (r.chance(1, 2)) { c = r.chance(1, 3) ? r.word() : 1 + r.below(5); if (c && c < 100 && n < 10000) n = n / c; } p = s.step("calloc", via, 0, c, n); n = c * n; } else p = s.step("malloc", via, 0, 1, n);
				if (p) live[p] = n;
			} else if (k < 12) { u64 p = r.chance(1, 12) ? 0 : pick(); u64 n = len(); if (p && r.chance(1, 2)) n = live[p] + (r.chance(2, 3) ? r.below(60) : 0) - std::min<u64>(live[p], r.below(20)); u64 q = s.step("realloc", via, p, 1, n); if (q) { if (p) live.erase(p); if (q != p) dead.push_back(p); live[q] = n; } }
			else if (k < 13) { u64 p = bad(); if (p) { u64 q = s.step("realloc", via, p, 1, len()); if (q) { live.erase(p); live[q] = 1; } } }
			else if (k < 14) { u64 p = bad(); s.step("free", via, p, 1, 0); if (live.count(p)) { live.erase(p); dead.push_back(p); } }
			else if (k < 15 && !alone) { if (r.chance(1, 3)) s.step("free", r.chance(1, 2) ? "sys" : "call", 0, 1, 0); else s.step("meminfo", "sys", r.chance(1, 5) ? 0 : 1, 1, 0); }
			else { u64 p = pick(); if (p) { s.step("free", via, p, 1, 0); live.erase(p); dead.push_back(p); } }
			if (mood == 1 && r.chance(1, 40)) while (!live.empty()) { u64 p = pick(); s.step("free", via, p, 1, 0); live.erase(p); }
		}
		while (!live.empty()) { auto it = live.begin(); std::advance(it, r.below(live.size())); s.step("free", alone ? "host" : "sys", it->first, 1, 0); live.erase(it); }
		u64 p = s.step("malloc", alone ? "host" : "sys", 0, 1, size & ~15ull); if (p) s.step("free", "host", p, 1, 0);
		total += s.ops;
	}
	printf("DRIVER histories=%lu\nDRIVER operations=%lu\n", hist, total);
	fclose(g_out);
}
