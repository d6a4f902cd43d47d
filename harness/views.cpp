// Host views of and operations on guest objects of arbitrary content.
#include "common.hpp"
#include <libloong/guest_datatypes.hpp>
#include <functional>
typedef GuestStdString Str; typedef GuestRustString RStr; typedef GuestStdVector<u32> VI; typedef GuestRustVector<u32> RVI; typedef GuestStdVector<Str> VS; typedef GuestStdVector<VI> VV; typedef GuestRustVector<RStr> RVS;
static const u64 SIZE = 65536, RO = 0x1000, DATA = 0x2000, OBJ = 0x4000, HEAP = 0x8000, HSIZE = 4096;
static u8 pat(u64 a) { return u8(a * 31 + a / 256); }
int main(int argc, char** argv)
{
	common_init(arg(argc, argv, "out", ""));
	u64 count = argn(argc, argv, "count", 400), seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0); Rng r(seed * 733 + shard); u64 ops = 0, refused = 0;
	std::unique_ptr<Machine> m; u64 block = 0;
	for (u64 it = 0; it < count; it++) {
		alarm(20);
		if (it % 50 == 0) { MachineOptions o; o.use_shared_execute_segments = false; m = std::make_unique<Machine>(std::string_view(), o); m->memory.allocate_custom_arena(SIZE, RO, DATA); }
		m->setup_accelerated_heap(HEAP, HSIZE); block = m->arena().malloc(64); m->arena().malloc(16); // a live block, and one behind it
		u8* mem = const_cast<u8*>(m->memory.arena_ptr()); for (u64 a = RO; a < SIZE; a++) mem[a] = pat(a);
		auto addr = [&]() -> u64 { switch (r.below(14)) { case 0: return 0; case 1: return SIZE - r.below(40); case 2: return RO + r.below(8) - 4; case 3: return ~0ull - r.below(64); case 4: return r.word(); case 5: return OBJ + 16; case 6: return OBJ + r.below(32); case 7: return block; case 8: return SIZE + r.below(64); case 9: return (1ull << 32) + 0x3000 + r.below(64); case 10: return DATA + r.below(16) - 8; default: return DATA + r.below(SIZE - DATA); } };
		auto len = [&](u64 p) -> u64 { switch (r.below(14)) { case 0: return 0; case 1: return r.below(16); case 2: return 15 + r.below(3); case 3: return SIZE - p; case 4: return SIZE - p + 1 + r.below(4); case 5: return ~0ull - r.below(40); case 6: return r.word(); case 7: return (16ull << 20) + r.below(3) - 1; case 8: return (1ull << 62) + r.below(20); case 9: return (1ull << 61) + r.below(20); case 10: return 0 - p + r.below(64); default: return r.below(120); } };
		std::vector<std::string> kinds = {"str", "rstr", "vi", "rvi", "vs", "vv", "rvs"}; std::string k = r.pick(kinds); u64 w[4], p = addr(), n = len(p), cap = r.chance(1, 2) ? n : len(p); std::string call; u64 max = r.chance(1, 3) ? n - r.below(2) : r.chance(1, 3) ? r.word() : 16ull << 20, idx = 0; u64 words = 3; if (k == "str" || k == "rstr") max = std::min<u64>(max, 32 << 20);
		bool elems4 = k == "vi" || k == "vs" || k == "vv"; if (elems4 && r.chance(2, 3)) { u64 s = k == "vi" ? 4 : k == "vs" ? 32 : 24; if (n < SIZE) n = n / s * s; }
		if (elems4 && r.chance(1, 2)) cap = n + (r.chance(1, 2) ? 0 : r.below(200));
		if (k == "str") { w[0] = p; w[1] = n; w[2] = r.next(); w[3] = r.next(); words = 4; }
		else if (k == "rstr") { w[offsetof(RStr, ptr) / 8] = p; w[offsetof(RStr, len) / 8] = n; w[offsetof(RStr, capacity) / 8] = cap; }
		else if (k == "rvi" || k == "rvs") { w[offsetof(RVI, ptr) / 8] = p; w[offsetof(RVI, len) / 8] = n; w[offsetof(RVI, capacity) / 8] = cap; }
		else { w[0] = p; w[1] = p + n; w[2] = p + cap; }
		memcpy(mem + OBJ, w, 8 * words);
		// elements of nested vectors: some sane, some wild
		if (elems4 || k == "rvs") if (p >= DATA && p < SIZE - 400 && (p + 400 < OBJ || p > OBJ + 32)) for (u64 i = 0; i < 10; i++) { u64 q = r.chance(1, 2) ? DATA + r.below(0x1000) : addr(); u64 l = r.chance(1, 2) ? r.below(60) : len(q); u64 e[4] = {q, k == "vv" ? q + l : l, k == "vv" ? q + 2 * l : l, 0}; if (k == "rvs") e[0] = l, e[1] = q, e[2] = l; memcpy(mem + p + i * (k == "vs" ? 32 : 24), e, k == "vs" ? 32 : 24); }
		std::vector<u8> ro(mem, mem + DATA); bool ok = true, content = false, ghost = false; std::vector<i64> res; auto& M = *m; const Machine& C = M;
		std::vector<u32> vals = {1, 2, 3}; std::string text(r.below(40), 'x');
		auto bytes = [&](const auto& s) { content = true; for (char c : s) { if (res.size() < 300) res.push_back((u8)c); } res.insert(res.begin(), s.size()); };
		auto nums = [&](auto* a, size_t c) { content = true; res.push_back(c); for (size_t i = 0; i < c && i < 40; i++) for (int j = 0; j < 4; j++) res.push_back((a[i] >> (8 * j)) & 255); };
		struct Call { std::string name; std::function<void()> f; }; std::vector<Call> cs;
		auto obj = [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; return M.memory.template writable_memarray<T>(OBJ, 1); };
		idx = r.chance(1, 2) ? r.below(30) : r.word();
		auto vec = [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; auto* o = obj((T*)0);
			cs = {{"to_vector", [=, &M, &C] { auto v = o->to_vector(C); if constexpr (sizeof(v[0]) == 4) nums(v.data(), v.size()); }}, {"as_array", [=, &M] { auto* a = o->as_array(M, max); if constexpr (sizeof(*a) == 4) nums(a, o->size()); else if (a && o->size()) { volatile u8 x = ((u8*)a)[0] ^ ((u8*)(a + o->size()))[-1]; (void)x; } }},
				{"as_array const", [=, &C] { const T& c = *o; auto* a = c.as_array(C, max); if constexpr (sizeof(*a) == 4) nums(a, o->size()); }}, {"at", [=, &M] { auto& e = o->at(M, idx); if constexpr (sizeof(e) == 4) nums(&e, 1); else { volatile u8 x = *(u8*)&e; (void)x; } }}, {"free", [=, &M] { o->free(M); }}}; };
		auto cvec = [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; auto* o = obj((T*)0); vec(t);
			cs.push_back({"pop_back", [=, &M] { o->pop_back(M); }}); cs.push_back({"clear", [=, &M] { o->clear(M); }}); cs.push_back({"resize", [=, &M] { o->resize(M, idx); }}); cs.push_back({"reserve", [=, &M] { o->reserve(M, idx); }}); cs.push_back({"fix", [=, &M] { o->fix_addresses(M, OBJ); }}); };
		if (k == "str") { auto* o = obj((Str*)0); cs = {{"to_string", [=, &C] { bytes(o->to_string(C, max)); }}, {"to_view", [=, &C] { bytes(o->to_view(C, max)); }}, {"set_string", [=, &M] { o->set_string(M, OBJ, text); }}, {"free", [=, &M] { o->free(M); }}, {"fix", [=, &M] { o->fix_addresses(M, OBJ); }}}; }
		else if (k == "rstr") { auto* o = obj((RStr*)0); cs = {{"to_string", [=, &C] { bytes(o->to_string(C, max)); }}, {"to_view", [=, &C] { bytes(o->to_view(C, max)); }}, {"set_string", [=, &M] { o->set_string(M, text); }}, {"free", [=, &M] { o->free(M); }}}; }
		else if (k == "vi") { cvec((VI*)0); auto* o = obj((VI*)0); cs.push_back({"push_back", [=, &M] { o->push_back(M, 77u); }}); cs.push_back({"append", [=, &M] { o->append(M, vals.data(), vals.size()); }}); cs.push_back({"assign", [=, &M] { o->assign(M, vals); }});
			cs.push_back({"iterate", [=, &M] { u64 x = 0; if (o->size_bytes() <= SIZE) for (auto i = o->begin(M); i != o->end(M); ++i) x += *i; volatile u64 y = x; (void)y; }}); }
		else if (k == "rvi") { vec((RVI*)0); auto* o = obj((RVI*)0); cs.push_back({"assign", [=, &M] { o->assign(M, vals); }}); }
		else if (k == "vs") { cvec((VS*)0); auto* o = obj((VS*)0); cs.push_back({"to_string_vector", [=, &C] { o->to_string_vector(C); }}); cs.push_back({"push_back", [=, &M] { o->push_back(M, std::string_view(text)); }}); }
		else if (k == "vv") { cvec((VV*)0); auto* o = obj((VV*)0); cs.push_back({"push_back", [=, &M] { o->push_back(M, vals); }}); }
		else { vec((RVS*)0); auto* o = obj((RVS*)0); cs.push_back({"read", [=, &M, &C] { o->at(M, idx % 8).to_string(C); }}); }
		const Call& c = r.chance(1, 2) ? cs[r.below(std::min<size_t>(cs.size(), 3))] : cs[r.below(cs.size())]; call = c.name;
		char d[160]; snprintf(d, sizeof d, "%s %s p=%lx n=%lx cap=%lx max=%lx idx=%lx", k.c_str(), call.c_str(), p, n, cap, max, idx); g_now = d;
		try { c.f(); } catch (const std::exception&) { ok = false; refused++; } (void)ghost;
		Out o; o.obj(); o.kstr("k", k); o.kstr("call", call); o.kbool("ok", ok); o.kbool("content", content && ok); o.kbytes("p", p); o.kbytes("n", n); o.kbytes("cap", cap); o.kbytes("max", max); o.kbytes("idx", idx);
		o.karr("raw"); for (u64 i = 0; i < 8 * words; i++) o.num(((u8*)w)[i]); o.end(); o.karr("res"); if (ok && content) for (i64 x : res) o.num(std::min<i64>(x, 1 << 30)); o.end(); 
		o.karr("elems"); if (k == "vi" || k == "rvi") if (p >= RO && p < SIZE - 400) {} o.end();
		o.kbool("same", !memcmp(ro.data() + RO, mem + RO, DATA - RO)); o.knum("used", M.arena().bytes_used()); o.knum("free", M.arena().bytes_free()); o.kstr("what", d);
		// memory as it is where the object points to (the driver put elements there)
		o.karr("there"); u64 want = k == "vi" || k == "rvi" ? 160 : 0; if (want && p >= RO && p < SIZE) for (u64 i = 0; i < want && p + i < SIZE; i++) o.num(mem[p + i]); o.end();
		o.eobj(); emit(o); ops++;
	}
	printf("DRIVER operations=%lu\nDRIVER refused=%lu\n", ops, refused); fclose(g_out);
}
