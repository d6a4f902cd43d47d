// Building LoongArch ELF64 executables in memory, well formed or with fields set at will.
#pragma once
#include "common.hpp"
#include <sys/mman.h>

struct Bytes {
	std::vector<u8> b;
	void put(size_t at, const void* p, size_t n) { if (b.size() < at + n) b.resize(at + n); memcpy(&b[at], p, n); }
	void u16(size_t at, uint16_t v) { put(at, &v, 2); }
	void u32_(size_t at, u32 v) { put(at, &v, 4); }
	void u64_(size_t at, u64 v) { put(at, &v, 8); }
};
struct Seg { u32 type, flags; u64 off, vaddr, filesz, memsz; std::vector<u8> data; bool has_off = false; };
struct Sect { std::string name; u32 type; u64 addr, off, size; u32 link; std::vector<u8> data; bool has_off = false; };
struct Symb { std::string name; u8 info; u64 value, size; uint16_t shndx = 1; };
struct ElfSpec {
	std::vector<Seg> segs; std::vector<Sect> sects; std::vector<Symb> syms, dyns;
	u64 entry = 0; size_t phoff = 64; bool sections = true; u32 pad_before_data = 0; bool sections_first = false;
	// positions of interesting fields, for the mutator: (offset, width)
	std::vector<std::pair<size_t, int>> fields;
	static void symtab(std::vector<Symb>& v, std::vector<u8>& tab, std::vector<u8>& str, Rng& r) {
		tab.assign(24, 0); str.assign(1, 0);
		for (auto& s : v) {
			u32 n = str.size(); str.insert(str.end(), s.name.begin(), s.name.end()); str.push_back(0);
			u8 e[24]; memcpy(e, &n, 4); e[4] = s.info; e[5] = 0; memcpy(e + 6, &s.shndx, 2); memcpy(e + 8, &s.value, 8); memcpy(e + 16, &s.size, 8);
			tab.insert(tab.end(), e, e + 24);
		}
		(void)r;
	}
	std::vector<u8> build(Rng& r) {
		Bytes o; fields.clear();
		o.b.resize(64);
		const u8 id[16] = {0x7f, 'E', 'L', 'F', 2, 1, 1, 0}; o.put(0, id, 16);
		o.u16(16, 2); o.u16(18, 258); o.u32_(20, 1); o.u64_(24, entry); o.u64_(32, phoff);
		o.u16(52, 64); o.u16(54, 56); o.u16(56, segs.size()); o.u16(58, 64);
		for (auto f : std::vector<std::pair<size_t, int>>{{0,1},{4,1},{5,1},{16,2},{18,2},{24,8},{32,8},{40,8},{52,2},{54,2},{56,2},{58,2},{60,2},{62,2}}) fields.push_back(f);
		o.b.resize(std::max(o.b.size(), phoff + 56 * segs.size()));
		std::vector<u8> st, ss, dt, ds;
		if (sections) {
			symtab(syms, st, ss, r); symtab(dyns, dt, ds, r);
			auto add = [&](const char* n, u32 t, std::vector<u8>& d) { Sect s{n, t, 0, 0, d.size(), 0, d}; sects.push_back(s); return sects.size() - 1; };
			if (!syms.empty()) { size_t i = add(".symtab", 2, st); size_t j = add(".strtab", 3, ss); sects[i].link = j + 1; }
			if (!dyns.empty()) { size_t i = add(".dynsym", 11, dt); size_t j = add(".dynstr", 3, ds); sects[i].link = j + 1; }
		}
		if (sections && sections_first) place_sections(o);
		for (auto& s : segs) {
			if (!s.has_off) { s.off = o.b.size() + r.below(9); if (!s.data.empty()) o.put(s.off, s.data.data(), s.data.size()); else if (s.filesz) o.b.resize(s.off + s.filesz); }
		}
		if (sections && !sections_first) place_sections(o);
		for (size_t i = 0; i < segs.size(); i++) {
			auto& s = segs[i]; size_t p = phoff + 56 * i;
			o.u32_(p, s.type); o.u32_(p + 4, s.flags); o.u64_(p + 8, s.off); o.u64_(p + 16, s.vaddr); o.u64_(p + 24, s.vaddr); o.u64_(p + 32, s.filesz); o.u64_(p + 40, s.memsz); o.u64_(p + 48, 4096);
			for (auto f : std::vector<std::pair<size_t, int>>{{0,4},{4,4},{8,8},{16,8},{32,8},{40,8}}) fields.push_back({p + f.first, f.second});
		}
		return o.b;
	}
	void place_sections(Bytes& o) {
		std::vector<u8> shstr(1, 0); std::vector<u32> noff;
		for (auto& s : sects) { noff.push_back(shstr.size()); shstr.insert(shstr.end(), s.name.begin(), s.name.end()); shstr.push_back(0); }
		u32 selfname = shstr.size(); const char* sn = ".shstrtab"; shstr.insert(shstr.end(), sn, sn + 10);
		// data of sections that have any; sections describing segment contents carry their own offset
		for (auto& s : sects) if (!s.has_off) { s.off = o.b.size(); o.put(s.off, s.data.data(), s.data.size()); }
		u64 so = o.b.size(); o.put(so, shstr.data(), shstr.size());
		if (o.b.size() % 8) o.b.resize((o.b.size() + 7) & ~7ull);
		u64 shoff = o.b.size(); size_t n = sects.size() + 2;
		o.b.resize(shoff + 64 * n);
		auto hdr = [&](size_t i, u32 nm, u32 ty, u64 ad, u64 of, u64 sz, u32 ln) {
			size_t p = shoff + 64 * i; o.u32_(p, nm); o.u32_(p + 4, ty); o.u64_(p + 16, ad); o.u64_(p + 24, of); o.u64_(p + 32, sz); o.u32_(p + 40, ln);
			for (auto f : std::vector<std::pair<size_t, int>>{{0,4},{4,4},{16,8},{24,8},{32,8},{40,4}}) fields.push_back({p + f.first, f.second});
		};
		for (size_t i = 0; i < sects.size(); i++) {
			auto& s = sects[i]; hdr(i + 1, noff[i], s.type, s.addr, s.off, s.size, s.link);
			if (s.type == 2 || s.type == 11) for (size_t k = 24; k + 24 <= s.data.size(); k += 24)
				for (auto f : std::vector<std::pair<size_t, int>>{{0,4},{4,1},{8,8},{16,8}}) fields.push_back({s.off + k + f.first, f.second});
			if (s.type == 3 && !s.data.empty()) fields.push_back({s.off + s.data.size() - 1, 1});
		}
		hdr(n - 1, selfname, 3, 0, so, shstr.size(), 0);
		o.u64_(40, shoff); o.u16(60, n); o.u16(62, n - 1);
	}
};
// a heap block of exactly the size of the data, so that any access beyond it is noticed
struct Exact { char* p; size_t n; explicit Exact(const std::vector<u8>& v) : p((char*)malloc(v.size() ? v.size() : 1)), n(v.size()) { memcpy(p, v.data(), n); } ~Exact() { free(p); }
	std::string_view view() const { return {p, n}; } Exact(const Exact&) = delete; };
