// Host accesses to the memory of machines with very small arenas; judged by spec/MemTrace.tla.
#include "common.hpp"
static u64 SZ, RO, RW; static std::unique_ptr<Machine> M; static std::vector<u8> shadow; static u64 g_ops = 0;
static u8* A() { return (u8*)M->memory.arena_ptr(); }
static size_t page_end() { return (SZ + 64 + 4095) & ~4095ull; }
static void new_arena(Rng& g, u64 size, u64 ro, u64 rw) {
	SZ = size; RO = ro; RW = rw; g_now = "new arena";
	M = std::make_unique<Machine>(std::string_view{}, MachineOptions{});
	M->memory.allocate_custom_arena(SZ, RO, RW);
	for (u64 i = 0; i < SZ + 64; i++) A()[i] = g.chance(1, 6) ? 0 : g.chance(1, 3) ? 255 : (u8)g.next();
	memset(A() + SZ + 64, 0xA5, page_end() - SZ - 64);
	shadow.assign(A(), A() + page_end());
	Out o; o.obj(); o.kstr("e", "arena"); o.knum("size", SZ); o.knum("ro", RO); o.knum("rw", RW); o.karr("mem"); for (u64 i = 0; i < SZ + 64; i++) o.num(shadow[i]); o.end(); o.eobj(); emit(o);
}
struct Rec { std::string op; u64 a = 0, n = 0, b = 0; int w = 0, v = 0; std::vector<u8> data; };
struct S24 { u64 x, y, z; };
template <class T> static void rd(std::vector<i64>& ret, u64 a) { T v = M->memory.read<T>(a); const u8* p = (const u8*)&v; for (size_t i = 0; i < sizeof(T); i++) ret.push_back(p[i]); }
template <class T> static void wr(u64 a, const std::vector<u8>& d) { T v; memcpy(&v, d.data(), sizeof v); M->memory.write<T>(a, v); }
template <class T> static void arr(std::vector<i64>& ret, u64 a, u64 bytes) { const T* p = M->memory.memarray<T>(a, bytes / sizeof(T)); if ((const u8*)p != A() + a && bytes) { ret.push_back(-1); return; } for (u64 i = 0; i < bytes; i++) ret.push_back(((const u8*)p)[i]); }
template <class T> static void warr(u64 a, u64 bytes, const std::vector<u8>& d) { T* p = M->memory.writable_memarray<T>(a, bytes / sizeof(T)); memcpy((void*)p, d.data(), bytes); }
static void run(const Rec& r) {
	std::string out = "ok"; std::vector<i64> ret;
	char b[160]; snprintf(b, sizeof b, "%s addr=0x%llx len=0x%llx b=0x%llx arena %llu/%llu/%llu", r.op.c_str(), (long long)r.a, (long long)r.n, (long long)r.b, (long long)RO, (long long)RW, (long long)SZ); g_now = b;
	auto& mem = M->memory;
	try {
		if (r.op == "read") { switch (r.w) { case 1: rd<u8>(ret, r.a); break; case 2: rd<uint16_t>(ret, r.a); break; case 4: rd<u32>(ret, r.a); break; case 24: rd<S24>(ret, r.a); break; default: rd<u64>(ret, r.a); } }
		else if (r.op == "write") { switch (r.w) { case 1: wr<u8>(r.a, r.data); break; case 2: wr<uint16_t>(r.a, r.data); break; case 4: wr<u32>(r.a, r.data); break; case 24: wr<S24>(r.a, r.data); break; default: wr<u64>(r.a, r.data); } }
		else if (r.op == "copy_to") mem.copy_to_guest(r.a, r.data.data(), r.n);
		else if (r.op == "copy_from") { // a refused copy must not be attempted: the destination is only as large as the arena
			std::vector<u8> t(r.n <= 4096 ? r.n : 4096); mem.copy_from_guest(t.data(), r.a, r.n); for (u8 x : t) ret.push_back(x); }
		else if (r.op == "array") { switch (r.w) { case 4: arr<u32>(ret, r.a, r.n); break; case 8: arr<u64>(ret, r.a, r.n); break; case 24: arr<S24>(ret, r.a, r.n); break; default: arr<u8>(ret, r.a, r.n); } }
		else if (r.op == "warray") { switch (r.w) { case 4: warr<u32>(r.a, r.n, r.data); break; case 8: warr<u64>(r.a, r.n, r.data); break; case 24: warr<S24>(r.a, r.n, r.data); break; default: warr<u8>(r.a, r.n, r.data); } }
		else if (r.op == "view") { auto v = mem.memview(r.a, r.n); if (v.size() != r.n) ret.push_back(-1); for (char c : v) ret.push_back((u8)c); }
		else if (r.op == "memset") mem.memset(r.a, (u8)r.v, r.n);
		else if (r.op == "memcmp") { int c = mem.memcmp(r.a, r.b, r.n); ret.push_back(c < 0 ? -1 : c > 0); }
		else if (r.op == "strlen") ret.push_back((i64)mem.strlen(r.a, r.n));
		else if (r.op == "memstring") { auto s = mem.memstring(r.a, r.n); for (char c : s) ret.push_back((u8)c); }
	} catch (const MachineException& e) { out = exname(e.type()); ret.clear(); }
	catch (const std::exception& e) { out = std::string("exception: ") + e.what(); ret.clear(); }
	g_ops++;
	Out o; o.obj(); o.kstr("e", "op"); o.kstr("op", r.op); o.kbytes("a", r.a); o.kbytes("n", r.n); o.kbytes("b", r.b); o.knum("w", r.w); o.knum("v", r.v);
	o.karr("data"); if (out == "ok") for (u8 x : r.data) o.num(x); o.end(); o.kstr("out", out); o.karr("ret"); for (i64 x : ret) o.num(x); o.end();
	o.karr("d"); i64 stray = 0; size_t end = page_end();
	if (memcmp(A(), shadow.data(), end)) for (size_t i = 0; i < end; i++) if (A()[i] != shadow[i]) { if (i < SZ + 64) { o.arr(); o.num(i + 1); o.num(A()[i]); o.end(); shadow[i] = A()[i]; } else { stray++; A()[i] = shadow[i]; } }
	o.end(); o.knum("stray", stray); o.eobj(); emit(o);
}
static u64 addr_near(Rng& g) {
	static const std::vector<u64> wild = {~0ull, ~0ull - 1, ~0ull - 7, ~0ull - 63, ~0ull - 4095, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1, 1ull << 31, (1ull << 31) - 1, 1ull << 16, 4096, 1ull << 47};
	switch (g.below(8)) {
	case 0: return g.pick(wild);
	case 1: return g.pick(wild) + g.below(2 * SZ);
	case 2: return SZ - 12 + g.below(26);
	case 3: return RW - 12 + g.below(26);
	case 4: return RO - 12 + g.below(26);
	default: return g.below(SZ + 20);
	}
}
static u64 len_near(Rng& g, u64 a) {
	static const std::vector<u64> wild = {~0ull, ~0ull - 1, ~0ull - 7, 1ull << 63, 1ull << 62, 1ull << 61, 1ull << 32, (1ull << 32) + 1, 1ull << 31, 4096, 65536};
	switch (g.below(8)) {
	case 0: return g.pick(wild);
	case 1: return 0 - a + g.below(SZ);        // wraps around into the arena
	case 2: case 3: return a < SZ ? SZ - a - 2 + g.below(5) : g.below(8);
	case 4: return g.below(3);
	default: return g.below(SZ / 2);
	}
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 300), per = argn(argc, argv, "per", 150);
	Rng g(seed * 1000003 + shard * 7919 + 5);
	static const std::vector<const char*> ops = {"read","write","copy_to","copy_from","array","warray","view","memset","memcmp","strlen","memstring"};
	for (u64 i = 0; i < count; i++) {
		u64 size = 40 + g.below(260), ro = g.chance(1, 6) ? 0 : g.below(size - 20), rw = g.chance(1, 8) ? ro : ro + g.below(size - ro);
		new_arena(g, size, ro, rw);
		for (u64 k = 0; k < per; k++) {
			Rec r; r.op = g.pick(ops); r.a = addr_near(g); r.n = len_near(g, r.a); r.v = g.chance(1, 3) ? 0 : (int)g.below(256);
			static const std::vector<int> ws = {1, 2, 4, 8, 24}, aw = {1, 4, 8, 24};
			if (r.op == "read" || r.op == "write") r.w = g.pick(ws);
			if (r.op == "array" || r.op == "warray") { r.w = g.pick(aw); u64 cnt = g.chance(1, 6) ? ~0ull / r.w + 1 + g.below(8) : r.n / r.w; u64 bytes = cnt * r.w;
				if (cnt > ~0ull / r.w) { r.w = r.w == 1 ? 8 : r.w; // a count whose size in bytes overflows: must be refused
					std::string out = "ok"; g_now = "memarray with an overflowing count"; try { if (r.op == "array") { if (r.w == 4) M->memory.memarray<u32>(r.a, cnt); else if (r.w == 8) M->memory.memarray<u64>(r.a, cnt); else M->memory.memarray<S24>(r.a, cnt); } else { if (r.w == 4) M->memory.writable_memarray<u32>(r.a, cnt); else if (r.w == 8) M->memory.writable_memarray<u64>(r.a, cnt); else M->memory.writable_memarray<S24>(r.a, cnt); } } catch (const MachineException& e) { out = exname(e.type()); }
					Out o; o.obj(); o.kstr("e", "op"); o.kstr("op", r.op); o.kbytes("a", r.a); o.kbytes("n", ~0ull); o.kbytes("b", cnt); o.knum("w", r.w); o.knum("v", 0); o.karr("data"); o.end(); o.kstr("out", out); o.karr("ret"); o.end(); o.karr("d"); o.end(); o.knum("stray", 0); o.eobj(); emit(o); g_ops++; continue; }
				r.n = bytes; }
			if (r.op == "write") for (int j = 0; j < r.w; j++) r.data.push_back((u8)g.next());
			if (r.op == "copy_to" || r.op == "warray") for (u64 j = 0; j < (r.n <= 4096 ? r.n : 4096); j++) r.data.push_back((u8)g.next());
			if (r.op == "memcmp") { r.b = g.chance(1, 3) ? addr_near(g) : r.a + g.below(8); if (g.chance(1, 3) && r.a < SZ && r.b < SZ) { // equal prefixes
				u64 at = r.a > RW ? r.a : r.b; (void)at; } }
			run(r);
			if (r.op == "memcmp" && g.chance(1, 2) && r.n < SZ) { Rec c; c.op = "copy_to"; c.a = RW; c.n = r.n < SZ - RW ? r.n : SZ - RW; for (u64 j = 0; j < c.n; j++) c.data.push_back(A()[(RO + j) % SZ]); run(c); r.a = RO; r.b = RW; run(r); }
		}
	}
	fclose(g_out); printf("DRIVER ops=%lu\n", (long)g_ops);
}
