// Executes generated LoongArch code on the real emulator with three engines
// (single-stepping, counting, non-counting) and records what each did.
// The trace is judged by spec/LATrace.tla; this program knows nothing about
// what an instruction should do.
#include "common.hpp"
#include <libloong/debug.hpp>
#include <fcntl.h>
static const u64 RO = 0x10000, RW = 0x100000, END = 0x200000;
static const u32 STOP = 0x00150000;
struct Win { u64 base, len; };
static const std::vector<Win> WINS = {{1048448, 384}, {2097024, 128}};

enum Fmt { R3, R2, R1, SA2, SA3, I12, U12, I14, I16, I20, SH5, SH6, BSW, BSD, B16, B21, BC21, B26, J16, CF_FR, FR_CF, CF_GR, GR_CF, FCMPF, FSELF, HINT, AMO };
struct Op { const char* name; u32 base; Fmt f; char cls; }; // cls: i int, d division, m mem, a atomic, l ll/sc, b branch, f fp, x fp mem
static const std::vector<Op> OPS = {
 {"add.w",0x00100000,R3,'i'},{"add.d",0x00108000,R3,'i'},{"sub.w",0x00110000,R3,'i'},{"sub.d",0x00118000,R3,'i'},{"slt",0x00120000,R3,'i'},{"sltu",0x00128000,R3,'i'},
 {"maskeqz",0x00130000,R3,'i'},{"masknez",0x00138000,R3,'i'},{"nor",0x00140000,R3,'i'},{"and",0x00148000,R3,'i'},{"or",0x00150000,R3,'i'},{"xor",0x00158000,R3,'i'},
 {"orn",0x00160000,R3,'i'},{"andn",0x00168000,R3,'i'},{"sll.w",0x00170000,R3,'i'},{"srl.w",0x00178000,R3,'i'},{"sra.w",0x00180000,R3,'i'},{"sll.d",0x00188000,R3,'i'},
 {"srl.d",0x00190000,R3,'i'},{"sra.d",0x00198000,R3,'i'},{"rotr.w",0x001B0000,R3,'i'},{"rotr.d",0x001B8000,R3,'i'},{"mul.w",0x001C0000,R3,'i'},{"mulh.w",0x001C8000,R3,'i'},
 {"mulh.wu",0x001D0000,R3,'i'},{"mul.d",0x001D8000,R3,'i'},{"mulh.d",0x001E0000,R3,'i'},{"mulh.du",0x001E8000,R3,'i'},
 {"div.w",0x00200000,R3,'d'},{"mod.w",0x00208000,R3,'d'},{"div.wu",0x00210000,R3,'d'},{"mod.wu",0x00218000,R3,'d'},{"div.d",0x00220000,R3,'d'},{"mod.d",0x00228000,R3,'d'},
 {"div.du",0x00230000,R3,'d'},{"mod.du",0x00238000,R3,'d'},
 {"alsl.w",0x00040000,SA2,'i'},{"alsl.wu",0x00060000,SA2,'i'},{"bytepick.d",0x000C0000,SA3,'i'},{"alsl.d",0x002C0000,SA2,'i'},
 {"slli.w",0x00408000,SH5,'i'},{"slli.d",0x00410000,SH6,'i'},{"srli.w",0x00448000,SH5,'i'},{"srli.d",0x00450000,SH6,'i'},{"srai.w",0x00488000,SH5,'i'},{"srai.d",0x00490000,SH6,'i'},
 {"rotri.w",0x004C8000,SH5,'i'},{"rotri.d",0x004D0000,SH6,'i'},{"bstrins.w",0x00600000,BSW,'i'},{"bstrpick.w",0x00608000,BSW,'i'},{"bstrins.d",0x00800000,BSD,'i'},{"bstrpick.d",0x00C00000,BSD,'i'},
 {"clo.w",0x00001000,R2,'i'},{"clz.w",0x00001400,R2,'i'},{"cto.w",0x00001800,R2,'i'},{"ctz.w",0x00001C00,R2,'i'},{"clo.d",0x00002000,R2,'i'},{"clz.d",0x00002400,R2,'i'},
 {"cto.d",0x00002800,R2,'i'},{"ctz.d",0x00002C00,R2,'i'},{"revb.2h",0x00003000,R2,'i'},{"revb.4h",0x00003400,R2,'i'},{"revb.2w",0x00003800,R2,'i'},{"revb.d",0x00003C00,R2,'i'},
 {"revh.2w",0x00004000,R2,'i'},{"revh.d",0x00004400,R2,'i'},{"bitrev.4b",0x00004800,R2,'i'},{"bitrev.8b",0x00004C00,R2,'i'},{"bitrev.w",0x00005000,R2,'i'},{"bitrev.d",0x00005400,R2,'i'},
 {"rdtime.d",0x00006800,R1,'i'},{"movfcsr2gr",0x0114C800,R1,'i'},
 {"ext.w.h",0x00005800,R2,'i'},{"ext.w.b",0x00005C00,R2,'i'},
 {"slti",0x02000000,I12,'i'},{"sltui",0x02400000,I12,'i'},{"addi.w",0x02800000,I12,'i'},{"addi.d",0x02C00000,I12,'i'},{"lu52i.d",0x03000000,I12,'i'},{"andi",0x03400000,U12,'i'},
 {"ori",0x03800000,U12,'i'},{"xori",0x03C00000,U12,'i'},{"addu16i.d",0x10000000,I16,'i'},{"lu12i.w",0x14000000,I20,'i'},{"lu32i.d",0x16000000,I20,'i'},{"pcaddi",0x18000000,I20,'i'},
 {"pcalau12i",0x1A000000,I20,'i'},{"pcaddu12i",0x1C000000,I20,'i'},{"pcaddu18i",0x1E000000,I20,'i'},
 {"ld.b",0x28000000,I12,'m'},{"ld.h",0x28400000,I12,'m'},{"ld.w",0x28800000,I12,'m'},{"ld.d",0x28C00000,I12,'m'},{"st.b",0x29000000,I12,'m'},{"st.h",0x29400000,I12,'m'},
 {"st.w",0x29800000,I12,'m'},{"st.d",0x29C00000,I12,'m'},{"ld.bu",0x2A000000,I12,'m'},{"ld.hu",0x2A400000,I12,'m'},{"ld.wu",0x2A800000,I12,'m'},
 {"fld.s",0x2B000000,I12,'x'},{"fst.s",0x2B400000,I12,'x'},{"fld.d",0x2B800000,I12,'x'},{"fst.d",0x2BC00000,I12,'x'},
 {"ldptr.w",0x24000000,I14,'m'},{"stptr.w",0x25000000,I14,'m'},{"ldptr.d",0x26000000,I14,'m'},{"stptr.d",0x27000000,I14,'m'},
 {"ldx.b",0x38000000,R3,'m'},{"ldx.h",0x38040000,R3,'m'},{"ldx.w",0x38080000,R3,'m'},{"ldx.d",0x380C0000,R3,'m'},{"stx.b",0x38100000,R3,'m'},{"stx.h",0x38140000,R3,'m'},
 {"stx.w",0x38180000,R3,'m'},{"stx.d",0x381C0000,R3,'m'},{"ldx.bu",0x38200000,R3,'m'},{"ldx.hu",0x38240000,R3,'m'},{"ldx.wu",0x38280000,R3,'m'},
 {"fldx.s",0x38300000,R3,'x'},{"fldx.d",0x38340000,R3,'x'},{"fstx.s",0x38380000,R3,'x'},{"fstx.d",0x383C0000,R3,'x'},
 {"ll.w",0x20000000,I14,'l'},{"sc.w",0x21000000,I14,'l'},{"ll.d",0x22000000,I14,'l'},{"sc.d",0x23000000,I14,'l'},
 {"amswap.w",0x38600000,AMO,'a'},{"amswap.d",0x38608000,AMO,'a'},{"amadd.w",0x38610000,AMO,'a'},{"amadd.d",0x38618000,AMO,'a'},{"amand.w",0x38620000,AMO,'a'},{"amand.d",0x38628000,AMO,'a'},
 {"amor.w",0x38630000,AMO,'a'},{"amor.d",0x38638000,AMO,'a'},{"amxor.w",0x38640000,AMO,'a'},{"amxor.d",0x38648000,AMO,'a'},
 {"amswap_db.w",0x38690000,AMO,'a'},{"amswap_db.d",0x38698000,AMO,'a'},{"amadd_db.w",0x386A0000,AMO,'a'},{"amadd_db.d",0x386A8000,AMO,'a'},{"amand_db.w",0x386B0000,AMO,'a'},{"amand_db.d",0x386B8000,AMO,'a'},
 {"amor_db.w",0x386C0000,AMO,'a'},{"amor_db.d",0x386C8000,AMO,'a'},{"amxor_db.w",0x386D0000,AMO,'a'},{"amxor_db.d",0x386D8000,AMO,'a'},
 {"dbar",0x38720000,HINT,'m'},{"ibar",0x38728000,HINT,'m'},{"preld",0x2AC00000,I12,'m'},
 {"beqz",0x40000000,B21,'b'},{"bnez",0x44000000,B21,'b'},{"bceqz",0x48000000,BC21,'b'},{"bcnez",0x48000100,BC21,'b'},{"jirl",0x4C000000,J16,'b'},{"b",0x50000000,B26,'b'},{"bl",0x54000000,B26,'b'},
 {"beq",0x58000000,B16,'b'},{"bne",0x5C000000,B16,'b'},{"blt",0x60000000,B16,'b'},{"bge",0x64000000,B16,'b'},{"bltu",0x68000000,B16,'b'},{"bgeu",0x6C000000,B16,'b'},
 {"fabs.s",0x01140400,R2,'f'},{"fabs.d",0x01140800,R2,'f'},{"fneg.d",0x01141800,R2,'f'},{"fclass.s",0x01143400,R2,'f'},{"fclass.d",0x01143800,R2,'f'},{"fmov.s",0x01149400,R2,'f'},
 {"fmov.d",0x01149800,R2,'f'},{"movgr2fr.w",0x0114A400,R2,'f'},{"movgr2fr.d",0x0114A800,R2,'f'},{"movfr2gr.s",0x0114B400,R2,'f'},{"movfr2gr.d",0x0114B800,R2,'f'},
 {"movfr2cf",0x0114D000,CF_FR,'f'},{"movcf2fr",0x0114D400,FR_CF,'f'},{"movgr2cf",0x0114D800,CF_GR,'f'},{"movcf2gr",0x0114DC00,GR_CF,'f'},
 {"fcmp.s",0x0C100000,FCMPF,'f'},{"fcmp.d",0x0C200000,FCMPF,'f'},{"fsel",0x0D000000,FSELF,'f'},
};
// reserved encodings of the manual (never assigned, whatever the extension)
static const std::vector<u32> ILLEGAL = {0x00000000, 0x00000001, 0xFFFFFFFF, 0xFC000000, 0xF0000000, 0xEC001234, 0xE0000000, 0xC0000FFF, 0xB8000000, 0x80000000};
static u32 reg_for(Rng& g) { return g.chance(1, 10) ? 0 : (u32)g.below(32); }
static u32 gen(Rng& g, const Op& o) {
	u32 d = reg_for(g), j = reg_for(g), k = reg_for(g);
	if (g.chance(1, 8)) j = d;
	if (g.chance(1, 8)) k = j;
	auto imm = [&](unsigned bits) -> u32 {
		u32 m = bits == 32 ? ~0u : (1u << bits) - 1;
		switch (g.below(6)) {
		case 0: return 0; case 1: return m; case 2: return 1u << (bits - 1); case 3: return (1u << (bits - 1)) - 1; default: return (u32)g.next() & m;
		} };
	switch (o.f) {
	case R3: return o.base | k << 10 | j << 5 | d;
	case R1: return o.base | d;
	case R2: return o.base | j << 5 | d;
	case SA2: return o.base | (u32)g.below(4) << 15 | k << 10 | j << 5 | d;
	case SA3: return o.base | (u32)g.below(8) << 15 | k << 10 | j << 5 | d;
	case I12: case U12: return o.base | imm(12) << 10 | j << 5 | d;
	case I14: return o.base | imm(14) << 10 | j << 5 | d;
	case I16: return o.base | imm(16) << 10 | j << 5 | d;
	case I20: return o.base | imm(20) << 5 | d;
	case SH5: return o.base | imm(5) << 10 | j << 5 | d;
	case SH6: return o.base | imm(6) << 10 | j << 5 | d;
	case BSW: { u32 lo = (u32)g.below(32), hi = lo + (u32)g.below(32 - lo); if (g.chance(1, 6)) { lo = 0; hi = 31; } if (g.chance(1, 8)) hi = 31; return o.base | hi << 16 | lo << 10 | j << 5 | d; }
	case BSD: { u32 lo = (u32)g.below(64), hi = lo + (u32)g.below(64 - lo); if (g.chance(1, 6)) { lo = 0; hi = 63; } if (g.chance(1, 8)) hi = 63; return o.base | hi << 16 | lo << 10 | j << 5 | d; }
	case AMO: if (d != 0 && (d == j || d == k)) d = 1 + (d + 1) % 31, j = j == d ? (j % 31) + 1 : j, k = k == d ? (k % 31) + 1 : k;
		if (d != 0 && (d == j || d == k)) d = 0;
		return o.base | k << 10 | j << 5 | d;
	case HINT: return o.base;
	case CF_FR: case CF_GR: return o.base | j << 5 | (d & 7);
	case FR_CF: case GR_CF: return o.base | (j & 7) << 5 | d;
	case FCMPF: { static const std::vector<u32> c = {0,1,2,3,4,5,6,7,8,9,0xA,0xB,0xC,0xD,0xE,0xF,0x10,0x11,0x14,0x15,0x18,0x19}; return o.base | g.pick(c) << 15 | k << 10 | j << 5 | (d & 7); }
	case FSELF: return o.base | (u32)g.below(8) << 15 | k << 10 | j << 5 | d;
	default: return o.base;
	}
}
// in programs, f0..f15 carry single and f16..f31 double precision values: the upper half of a
// single precision result is unspecified, so nothing may read it
static u32 fixfp(u32 w, const Op& o) {
	if (o.cls != 'f' && o.cls != 'x') return w;
	std::string n = o.name; bool dbl = true;
	if (n.find(".s") != std::string::npos || n == "movgr2fr.w") dbl = false;
	auto put = [&](int sh) { w = (w & ~(16u << sh)) | (dbl ? 16u << sh : 0); };
	if (o.cls == 'x' || n.rfind("movgr2fr", 0) == 0 || o.f == FR_CF) put(0);
	else if (n.rfind("movfr2gr", 0) == 0) put(5);
	else if (o.f == R2) { put(0); put(5); }
	else if (o.f == FCMPF) { put(5); put(10); }
	else if (o.f == FSELF) { put(0); put(5); put(10); }
	return w;
}
static u32 b16(u32 base, u32 j, u32 d, i64 off) { return base | ((u32)(off) & 0xFFFF) << 10 | j << 5 | d; }
static u32 b21(u32 base, u32 j, i64 off) { return base | ((u32)off & 0xFFFF) << 10 | (j << 5) | (((u32)off >> 16) & 31); }
static u32 b26(u32 base, i64 off) { return base | ((u32)off & 0xFFFF) << 10 | (((u32)off >> 16) & 0x3FF); }

struct Snap { u64 r[32]; u64 f[32]; u8 cc[8]; bool ll; u64 pc; };
struct Eng {
	const char* name; std::unique_ptr<Machine> m;
	void load(Snap& s) { auto& R = m->cpu.registers(); for (int i = 0; i < 32; i++) { s.r[i] = R.get(i); memcpy(&s.f[i], &R.getfl64(i), 8); } for (int i = 0; i < 8; i++) s.cc[i] = R.cf(i); s.ll = m->cpu.ll_bit(); s.pc = R.pc; }
	void store(const Snap& s) { auto& R = m->cpu.registers(); for (int i = 0; i < 32; i++) { R.get(i) = s.r[i]; memcpy(&R.getfl64(i), &s.f[i], 8); } for (int i = 0; i < 8; i++) R.set_cf(i, s.cc[i]); R.set_fcsr(0x150A0000); m->cpu.set_ll_bit(s.ll); R.pc = s.pc; }
	u8* arena() { return (u8*)m->memory.arena_ptr(); }
};
struct Obs { std::string out; u64 fa = 0; Snap s; std::vector<u8> win; i64 stray = 0; i64 cnt = -1; bool lr = false, st = false; };

static Eng engs[3];
static std::vector<u32> code_words;                 // dense part
static std::vector<std::pair<u64, u32>> code_sparse;
static u64 code_base, code_len; static u32 code_dflt;
static u64 g_runs = 0;
static std::shared_ptr<MachineOptions> opts = std::make_shared<MachineOptions>();

static u32 word_at(u64 idx) {
	if (idx < code_words.size()) return code_words[idx];
	for (auto& p : code_sparse) if (p.first == idx) return p.second;
	return code_dflt;
}
static void new_code(u64 base) {
	code_base = base; if (!code_len) code_len = code_words.size();
	std::vector<u32> all(code_len, code_dflt);
	for (size_t i = 0; i < code_words.size(); i++) all[i] = code_words[i];
	for (auto& p : code_sparse) all[p.first] = p.second;
	static const char* names[3] = {"slow", "fast", "inacc"};
	g_now = "installing code";
	for (int e = 0; e < 3; e++) {
		engs[e].name = names[e];
		engs[e].m = std::make_unique<Machine>(std::string_view{}, *opts);
		auto& m = *engs[e].m;
		m.set_options(opts);
		m.memory.allocate_custom_arena(END, RO, RW);
		if (e == 0) m.cpu.init_slowpath_execute_area(all.data(), base, code_len * 4);
		else { m.memory.copy_into_arena_unsafe(base, all.data(), code_len * 4); m.cpu.init_execute_area(all.data(), base, code_len * 4); }
		Snap z; memset(&z, 0, sizeof z); engs[e].store(z);
	}
	Out o; o.obj(); o.kstr("e", "code"); o.knum("base", base); o.knum("len", code_len);
	o.karr("ws"); for (u32 w : code_words) o.num((i32)w); o.end();
	o.karr("sp"); for (auto& p : code_sparse) { o.arr(); o.num(p.first); o.num((i32)p.second); o.end(); } o.end();
	o.knum("dflt", (i32)code_dflt); o.eobj(); emit(o);
}
static const u32 SYSCALL = 0x002B0000, BREAK = 0x002A0000;
static void install_handlers() {
	Machine::set_rdtime([](Machine&) -> uint64_t { return 0xFEDCBA9876543210ull; });
	Machine::install_syscall_handler(490, [](Machine& m) { m.stop(); });
	Machine::install_syscall_handler(491, [](Machine& m) { m.cpu.reg(4) += 1; });
	Machine::install_syscall_handler(492, [](Machine& m) { m.cpu.registers().pc = m.cpu.reg(5) - 4; });
	Machine::install_syscall_handler(493, [](Machine& m) { throw MachineException(GUEST_ABORT, "thrown by a handler", m.cpu.reg(4)); });
	Machine::install_syscall_handler(494, [](Machine& m) { u64 v = m.cpu.reg(6); m.memory.copy_to_guest(m.cpu.reg(5), &v, 8); });
	Machine::install_syscall_handler(495, [](Machine& m) { m.cpu.reg(4) = m.cpu.pc(); });
	Machine::install_syscall_handler(496, [](Machine& m) { m.cpu.reg(4) = m.cpu.reg(5) + m.cpu.reg(10) + m.cpu.reg(31); memcpy(&m.cpu.registers().getfl64(0), &m.cpu.registers().getfl64(1), 8); });
}
static bool pc_counts(const std::string& out) { return out == "stop" || out == "abort" || out == "nosys"; }
static std::vector<u8> grab(Eng& e) { std::vector<u8> v; for (auto& w : WINS) v.insert(v.end(), e.arena() + w.base, e.arena() + w.base + w.len); return v; }
static void put(Eng& e, const std::vector<u8>& v) { size_t p = 0; for (auto& w : WINS) { memcpy(e.arena() + w.base, v.data() + p, w.len); p += w.len; } }
static i64 stray_bytes(Eng& e, const std::vector<u8>& shadow) {
	// everything outside the windows must be as it was
	u64 at = 0; i64 n = 0;
	auto cmp = [&](u64 a, u64 b) { if (b > a && memcmp(e.arena() + a, shadow.data() + a, b - a)) for (u64 i = a; i < b; i++) if (e.arena()[i] != shadow[i]) { n++; e.arena()[i] = shadow[i]; } };
	for (auto& w : WINS) { cmp(at, w.base); at = w.base + w.len; }
	cmp(at, END + 64);
	return n;
}
struct Setup { std::vector<std::pair<u32, u64>> r, f; std::vector<std::pair<u32, u8>> c; std::vector<std::pair<u32, u8>> m; };
static std::vector<u8> shadow; static bool want_shadow = true;
static u64 step_limit = 1500;
static std::vector<int> use_engines = {0, 1, 2};

static void write_obs(Out& o, const Obs& b, const std::string& name, const Snap& s0, const std::vector<u8>& w0) {
	o.obj(); o.kstr("eng", name); o.kstr("out", b.out); o.kbytes("fa", b.fa); o.kbytes("pc", b.s.pc);
	o.karr("r"); for (int k = 1; k < 32; k++) if (b.s.r[k] != s0.r[k]) { o.arr(); o.num(k); o.bytes(b.s.r[k]); o.end(); } o.end();
	o.knum("r0", b.s.r[0] != 0);
	o.karr("f"); for (int k = 0; k < 32; k++) if (b.s.f[k] != s0.f[k]) { o.arr(); o.num(k + 1); o.bytes(b.s.f[k]); o.end(); } o.end();
	o.karr("cc"); for (int k = 0; k < 8; k++) o.num(b.s.cc[k]); o.end();
	o.karr("m"); for (size_t k = 0; k < b.win.size(); k++) if (b.win[k] != w0[k]) { o.arr(); o.num(k + 1); o.num(b.win[k]); o.end(); } o.end();
	o.knum("ll", b.s.ll); o.knum("stray", b.stray); o.knum("cnt", b.cnt); o.kbool("lr", b.lr); o.kbool("st", b.st); o.eobj();
}
static void write_setup(Out& o, i64 pc, const Setup& su) {
	o.knum("pc", pc);
	o.karr("set"); for (auto& p : su.r) { o.arr(); o.num(p.first); o.bytes(p.second); o.end(); } o.end();
	o.karr("fset"); for (auto& p : su.f) { o.arr(); o.num(p.first + 1); o.bytes(p.second); o.end(); } o.end();
	o.karr("cset"); for (auto& p : su.c) { o.arr(); o.num(p.first + 1); o.num(p.second); o.end(); } o.end();
	o.karr("mset"); for (auto& p : su.m) { o.arr(); o.num(p.first + 1); o.num(p.second); o.end(); } o.end();
}
static void run(u64 pc, const Setup& su) {
	Snap s0; engs[use_engines[0]].load(s0); s0.pc = pc;
	for (auto& p : su.r) s0.r[p.first] = p.second;
	for (auto& p : su.f) s0.f[p.first] = p.second;
	for (auto& p : su.c) s0.cc[p.first] = p.second;
	std::vector<u8> w0 = grab(engs[use_engines[0]]);
	for (auto& p : su.m) w0[p.first] = p.second;
	if (shadow.empty()) { shadow.assign(engs[1].arena(), engs[1].arena() + END + 64); }
	std::vector<Obs> obs; std::vector<std::string> names; bool fast_ended = true;
	for (int e : use_engines) {
		Eng& E = engs[e]; auto& m = *E.m; E.store(s0); put(E, w0);
		if (e == 2 && !fast_ended) continue;
		Obs o;
		{ char buf[160]; snprintf(buf, sizeof buf, "engine %s run %lu pc 0x%lx word 0x%08x", E.name, (long)g_runs, (long)pc, pc >= code_base && pc < code_base + 4 * code_len ? word_at((pc - code_base) / 4) : 0); g_now = buf; }
		auto body = [&] {
			try {
				if (e == 0) {
					u64 n = 0; o.out = "limit"; m.set_max_instructions(UINT64_MAX);
					while (n < step_limit) {
						u64 p = m.cpu.pc();
						if (p < code_base || p >= code_base + 4 * code_len) { o.out = "exec"; o.fa = p; break; }
						u32 w = word_at((p - code_base) / 4);
						m.cpu.step_one(true); n++;
						if (w == STOP || m.stopped()) { o.out = "stop"; break; }
					}
					o.cnt = n;
				} else if (e == 1) {
					m.set_instruction_counter(0);
					bool r = m.simulate(step_limit, 0);
					o.cnt = m.instruction_counter();
					o.out = r ? "stop" : "limit";
				} else { m.cpu.simulate_inaccurate(pc); o.out = "stop"; }
			} catch (const MachineException& ex) { o.out = exname(ex.type()); if (o.out == "prot" || o.out == "exec" || o.out == "misaligned" || o.out == "abort") o.fa = ex.data(); o.cnt = -1; }
			catch (const std::exception& ex) { o.out = "hostexc"; o.cnt = -1; }
		};
		WITH_TRAP(body(), { o.out = "hosttrap"; o.cnt = -1; });
		if (e == 1 && o.out == "limit") fast_ended = false;
		E.load(o.s); o.win = grab(E);
		o.stray = stray_bytes(E, shadow);
		// merge with an identical observation
		bool same = false;
		for (size_t i = 0; i < obs.size(); i++) {
			Obs& b = obs[i];
			if (b.out == o.out && b.fa == o.fa && !memcmp(b.s.r, o.s.r, sizeof o.s.r) && !memcmp(b.s.f, o.s.f, sizeof o.s.f) && !memcmp(b.s.cc, o.s.cc, 8)
				&& b.s.ll == o.s.ll && (!pc_counts(o.out) || b.s.pc == o.s.pc) && b.win == o.win && b.stray == o.stray && (b.cnt == o.cnt || o.cnt < 0)) { names[i] += std::string("+") + E.name; same = true; break; }
		}
		if (!same) { obs.push_back(o); names.push_back(E.name); }
	}
	Out o; o.obj(); o.kstr("e", "run"); write_setup(o, pc, su);
	o.karr("obs"); for (size_t i = 0; i < obs.size(); i++) write_obs(o, obs[i], names[i], s0, w0);
	o.end(); o.eobj(); emit(o); g_runs++;
	// every engine continues from the first observation (the trace module does the same)
	Snap s1 = obs[0].s; s1.r[0] = 0;
	for (int e : use_engines) { engs[e].store(s1); put(engs[e], obs[0].win); }
}
// one slice of a run on one machine: engine 0 steps lim instructions, 1 runs with counter c0 and limit lim, 2 runs to the end
// what the debugger prints: the program counters of its lines, and whether every line and register dump is right
struct DebugLog { i64 lines = 0, sum = 0; bool ok = true; };
static void read_log(Machine& m, const std::string& s, bool dumps, bool faulted, DebugLog& d) {
	std::vector<u64> pcs; size_t at = 0; u64 dumped[33]; memset(dumped, 0, sizeof dumped); int ndump = 0; CPU::format_t f;
	static const char* R[] = {"zero","ra","tp","sp","a0","a1","a2","a3","a4","a5","a6","a7","t0","t1","t2","t3","t4","t5","t6","t7","t8","r21","fp","s0","s1","s2","s3","s4","s5","s6","s7","s8"};
	const u64 keep = m.cpu.pc();
	while (at < s.size()) {
		size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size(); std::string ln = s.substr(at, e - at); at = e + 1;
		if (ln.compare(0, 4, "PC: ") == 0 && ln.find("  ") != std::string::npos && ln.find("  ") > 4) { // an instruction
			u64 pc = strtoull(ln.c_str() + 4, nullptr, 16); pcs.push_back(pc); std::string text = ln.substr(ln.find("  ") + 2);
			if (pc >= code_base && pc < code_base + 4 * code_len && pc % 4 == 0) { m.cpu.registers().pc = pc; f.whole = word_at((pc - code_base) / 4); if (text != m.cpu.to_string(f)) d.ok = false; }
		} else if (ln.compare(0, 4, "PC: ") == 0) { dumped[32] = strtoull(ln.c_str() + 4, nullptr, 16); ndump++; }
		else { size_t p = 0; while ((p = ln.find(": 0x", p)) != std::string::npos) { size_t b = ln.find_last_of(" \t", ln.find_last_not_of(" :", p)); std::string nm = ln.substr(b == std::string::npos ? 0 : b + 1, ln.find_last_not_of(" :", p) - (b == std::string::npos ? 0 : b + 1) + 1);
			for (int i = 0; i < 32; i++) if (nm == R[i] || nm == "r" + std::to_string(i)) { dumped[i] = strtoull(ln.c_str() + p + 2, nullptr, 16); break; } p += 4; } }
	}
	m.cpu.registers().pc = keep;
	if (faulted && !pcs.empty() && !(pcs.back() >= code_base && pcs.back() < code_base + 4 * code_len && pcs.back() % 4 == 0)) pcs.pop_back(); // nothing was executed there
	d.lines = pcs.size(); for (u64 pc : pcs) d.sum = (d.sum * 31 + (i64)(pc / 4 % 65536)) % 1000003;
	if (dumps && !faulted && !pcs.empty()) { if (ndump != (int)pcs.size() || dumped[32] != keep) d.ok = false; for (int i = 1; i < 32; i++) if (dumped[i] != m.cpu.reg(i)) d.ok = false; }
}
static std::string slice(int eng, u64 c0, u64 lim, i64 pc, const Setup& su) {
	Eng& E = engs[1]; auto& m = *E.m;
	Snap s0; E.load(s0); if (pc >= 0) s0.pc = pc;
	for (auto& p : su.r) s0.r[p.first] = p.second;
	for (auto& p : su.f) s0.f[p.first] = p.second;
	for (auto& p : su.c) s0.cc[p.first] = p.second;
	std::vector<u8> w0 = grab(E); for (auto& p : su.m) w0[p.first] = p.second;
	E.store(s0); put(E, w0);
	if (shadow.empty()) shadow.assign(E.arena(), E.arena() + END + 64);
	Obs o;
	static const char* names[4] = {"slow", "fast", "inacc", "debug"};
	std::string log; bool dumps = false;
	{ char buf[160]; snprintf(buf, sizeof buf, "slice %s run %lu pc 0x%lx counter %lu limit %lu", names[eng], (long)g_runs, (long)s0.pc, (long)c0, (long)lim); g_now = buf; }
	auto body = [&] {
		try {
			if (eng == 0) {
				u64 n = 0; o.out = "limit"; m.set_max_instructions(UINT64_MAX);
				while (c0 + n < lim) {
					u64 p = m.cpu.pc();
					if (p < code_base || p >= code_base + 4 * code_len) { o.out = "exec"; o.fa = p; break; }
					u32 w = p % 4 ? 0 : word_at((p - code_base) / 4);
					m.cpu.step_one(true); n++;
					if (w == STOP || m.stopped()) { o.out = "stop"; break; }
				}
				o.cnt = n;
			} else if (eng == 3) {
				o.out = "limit"; m.set_max_instructions(UINT64_MAX); DebugMachine dbg(m); dbg.verbose_registers = dumps = lim <= 40;
				fflush(stdout); int keep = dup(1); FILE* tmp = tmpfile(); dup2(fileno(tmp), 1);
				auto back = [&] { fflush(stdout); dup2(keep, 1); close(keep); long n = ftell(tmp); fseek(tmp, 0, SEEK_END); n = ftell(tmp); rewind(tmp); log.resize(n); if (n && fread(&log[0], 1, n, tmp) != (size_t)n) log.clear(); fclose(tmp); };
				try { dbg.simulate(lim); } catch (...) { back(); throw; }
				back(); o.cnt = m.instruction_counter(); o.lr = m.instruction_limit_reached(); o.st = m.stopped(); if (o.st && lim) o.out = "stop";
			} else if (eng == 1) {
				bool r = m.simulate(lim, c0);
				o.cnt = m.instruction_counter() - c0; o.out = r ? "stop" : "limit"; o.lr = m.instruction_limit_reached(); o.st = m.stopped();
			} else { m.cpu.simulate_inaccurate(m.cpu.pc()); o.out = "stop"; }
		} catch (const MachineException& ex) { o.out = exname(ex.type()); if (o.out == "prot" || o.out == "exec" || o.out == "misaligned" || o.out == "abort") o.fa = ex.data(); o.cnt = -1; }
		catch (const std::exception& ex) { o.out = "hostexc"; o.cnt = -1; }
	};
	WITH_TRAP(body(), { o.out = "hosttrap"; o.cnt = -1; });
	E.load(o.s); o.win = grab(E); o.stray = stray_bytes(E, shadow);
	Out t; t.obj(); t.kstr("e", "slice"); t.kstr("eng", names[eng]); t.kbytes("c0", c0); t.kbytes("lim", lim); write_setup(t, pc, su);
	t.karr("obs"); write_obs(t, o, names[eng], s0, w0); t.end();
	if (eng == 3) { DebugLog d; read_log(m, log, dumps, o.out != "stop" && o.out != "limit", d); t.karr("log"); t.num(d.lines); t.num(d.sum); t.num(d.ok); t.end(); }
	t.eobj(); emit(t); g_runs++;
	Snap s1 = o.s; s1.r[0] = 0; E.store(s1);
	return o.out;
}
static void reset_code() { code_words.clear(); code_sparse.clear(); code_len = 0; code_dflt = STOP; shadow.clear(); }
static u64 rand_base(Rng& g) { return RO + 4 * g.below(0x4000); }
static void rand_regs(Rng& g, Setup& s, bool fp) {
	for (u32 i = 1; i < 32; i++) s.r.push_back({i, g.word()});
	if (fp) { for (u32 i = 0; i < 32; i++) s.f.push_back({i, g.fword()}); for (u32 i = 0; i < 8; i++) s.c.push_back({i, (u8)g.below(2)}); }
}
// address such that an access of n bytes lies in the followed windows or starts outside the arena
static u64 mem_addr(Rng& g, bool allow_bad) {
	if (allow_bad && g.chance(1, 6)) {
		static const std::vector<u64> bad = {0, 1, 0xFFFF, 0xFFF8, END, END + 8, END + 0x1000, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0x100100000ull, 0xFFFF800000100000ull, 0x8000000000000000ull, ~0ull, ~7ull, 0xFFFFFFFFFFF00000ull, 0x1000000000100000ull};
		return g.pick(bad);
	}
	switch (g.below(4)) {
	case 0: return RW - g.below(120) - 8;         // read-only window
	case 1: return RW + g.below(248);
	case 2: return END - 8 - g.below(112);
	default: return RW + g.below(31) * 8;
	}
}

//------------------------------------------------------------------ modes
// every operand field of every instruction at its extremes, two fields at a time
typedef std::vector<std::pair<u32, const Op*>> Slots;
static Slots corner_words(Rng& g, u64 shard, u64 shards, const std::string& classes) {
	Slots r;
	for (size_t n = shard; n < OPS.size(); n += shards) {
		const Op& o = OPS[n]; if (o.f == HINT || classes.find(o.cls) == std::string::npos) continue;
		u32 var = 0, w0 = gen(g, o); for (int i = 0; i < 200; i++) var |= w0 ^ gen(g, o);
		if (o.f == FCMPF) var &= 0x7FFF;
		std::vector<u32> fs; for (int i = 0; i < 4; i++) { u32 m = var & (i == 3 ? ~0x7FFFu : 31u << 5 * i); if (m) fs.push_back(m); }
		for (size_t a = 0; a < fs.size(); a++) for (size_t b = a + 1; b < fs.size() || (fs.size() == 1 && b == 1); b++) for (u32 x = 0; x < 4; x++) {
			u32 m2 = b < fs.size() ? fs[b] : 0, w = gen(g, o); w = (w & ~(fs[a] | m2)) | (x & 1 ? fs[a] : 0) | (x & 2 ? m2 : 0);
			u32 d = w & 31, j = (w >> 5) & 31, k = (w >> 10) & 31;
			if (o.f == AMO && d != 0 && (d == j || d == k)) continue;
			if (o.f == BSW || o.f == BSD) { u32 bits = o.f == BSW ? 31 : 63, hi = (w >> 16) & bits, lo = (w >> 10) & bits; if (lo > hi) w = (w & ~(bits << 16 | bits << 10)) | lo << 16 | hi << 10; }
			r.push_back({w == STOP ? 0x00150001 : w, &o});
		}
	}
	return r;
}
static void mode_single(Rng& g, u64 count, const std::string& classes, const Slots* list = nullptr, u64 reps = 5) {
	std::vector<Op> ops; for (auto& o : OPS) if (classes.find(o.cls) != std::string::npos) ops.push_back(o);
	if (list) count = list->size() * reps;
	u64 done = 0; size_t rot = list ? 0 : g.below(ops.size());
	while (done < count) {
		reset_code();
		Slots slots;
		for (int i = 0; i < 60; i++) {
			if (list) { if (rot < list->size()) { slots.push_back((*list)[rot++]); code_words.push_back(slots.back().first); code_words.push_back(STOP); } continue; }
			const Op& o = ops[rot++ % ops.size()]; u32 w = gen(g, o); if (w == STOP) w = 0x00150001; slots.push_back({w, &o}); code_words.push_back(w); code_words.push_back(STOP); }
		if (slots.empty()) break;
		new_code(rand_base(g));
		Setup init; rand_regs(g, init, true);
		for (u32 i = 0; i < 512; i++) init.m.push_back({i, (u8)g.next()});
		run(code_base + 4 * 1, init);
		for (u64 rep = 0; rep < reps; rep++) for (size_t i = 0; i < slots.size() && done < count; i++, done++) {
			u32 w = slots[i].first; const Op& o = *slots[i].second; Setup s;
			u32 d = w & 31, j = (w >> 5) & 31, k = (w >> 10) & 31;
			auto setr = [&](u32 r, u64 v) { if (r) s.r.push_back({r, v}); };
			if (o.cls == 'm' || o.cls == 'x' || o.cls == 'l' || o.cls == 'a') {
				u64 a = mem_addr(g, true);
				i64 off = 0;
				if (o.f == I12) off = (i32)(w << 10) >> 20; else if (o.f == I14) off = ((i32)(w << 8) >> 18) * 4;
				if (o.f == R3) {
					if (j == k) { u64 half = a / 2; setr(j, half); }
					else if (j == 0) setr(k, a); else if (k == 0) setr(j, a);
					else { u64 b = g.word(); setr(k, b); setr(j, a - b); }
				} else setr(j, a - off);
				if (j != d) setr(d, g.word());
				if (o.f == AMO && k != j) setr(k, g.word());
				if (g.chance(1, 4)) { u32 r = 1 + (u32)g.below(31); if (r != j && !(o.f == R3 && r == k)) setr(r, g.word()); }
				if (g.chance(1, 4)) s.f.push_back({d, g.fword()});
			} else if (o.cls == 'f') {
				s.f.push_back({j, g.fword()}); s.f.push_back({k, g.chance(1, 4) ? s.f[0].second : g.fword()}); if (g.chance(1, 3)) s.f.push_back({d, g.fword()});
				setr(j, g.word()); s.c.push_back({(u32)g.below(8), (u8)g.below(2)}); s.c.push_back({j & 7, (u8)g.below(2)});
				if (o.f == FSELF) s.c.push_back({(w >> 15) & 7, (u8)g.below(2)});
			} else {
				setr(d, g.word()); setr(j, g.word()); setr(k, g.word());
				if (o.cls == 'd') { // the extreme quotient and equal operands often
					if (g.chance(1, 6)) { setr(j, g.chance(1, 2) ? 0x8000000000000000ull : 0xFFFFFFFF80000000ull); setr(k, ~0ull); }
					if (g.chance(1, 6)) setr(k, s.r.empty() ? 1 : s.r.back().second);
				}
				if (o.f == R3 && g.chance(1, 8) && j && k) { u64 v = g.word(); setr(j, v); setr(k, v + (u64)g.below(3) - 1); }
			}
			run(code_base + 8 * i, s);
		}
	}
}

static void mode_branch(Rng& g, u64 count) {
	std::vector<Op> ops; for (auto& o : OPS) if (o.cls == 'b') ops.push_back(o);
	u64 done = 0, rot = g.below(ops.size());
	while (done < count) {
		reset_code();
		// a long, mostly empty code area: landing pads are STOPs, everything else too
		bool big = g.chance(1, 3);
		code_len = big ? 20000 + g.below(100000) : 300 + g.below(3000);
		if (g.chance(1, 4)) code_dflt = 0x03400000; // nop filler: falls through to the next pad or the end
		if (code_dflt != STOP) code_len = 200 + g.below(600);
		u64 base = RO + 4 * g.below(1 + (RW - RO) / 4 - code_len - 8);
		std::map<u64, u32> w; std::vector<std::pair<u64, const Op*>> at;
		for (int i = 0; i < 24; i++) {
			const Op& o = ops[rot++ % ops.size()];
			u64 p = g.below(code_len - 1); if (g.chance(1, 6)) p = g.chance(1, 2) ? 0 : code_len - 2;
			if (w.count(p)) continue;
			u64 t;
			i64 lim = o.f == B16 || o.f == J16 ? 32767 : 1000000;
			switch (g.below(8)) {
			case 0: t = p + 1; break; case 1: t = p > 0 ? p - 1 : 1; break; case 2: t = p + 2; break;
			case 3: t = 0; break; case 4: t = code_len - 1; break;
			case 5: { i64 q = (i64)p + (g.chance(1, 2) ? 1 : -1) * (i64)(8190 + g.below(6)); t = q < 0 ? 0 : q; break; }
			default: t = g.below(code_len);
			}
			if (t >= code_len) t = code_len - 1;
			i64 off = (i64)t - (i64)p;
			if (off > lim) off = lim; if (off < -lim - 1) off = -lim - 1;
			if (off == 0) off = 1;
			u32 j = reg_for(g), d = reg_for(g); u32 iw = 0;
			if (g.chance(1, 8)) d = j;
			switch (o.f) {
			case B16: iw = b16(o.base, j, d, off); break;
			case B21: iw = b21(o.base, j, off); break;
			case BC21: iw = b21(o.base, j & 7, off); break;
			case B26: iw = b26(o.base, off); break;
			case J16: { i64 io = g.chance(1, 4) ? 0 : (i64)(i32)((u32)g.next() << 16) >> 16; iw = b16(o.base, j, d, io); break; }
			default: break;
			}
			w[p] = iw; at.push_back({p, &o});
			u64 tp = p + off; if (code_dflt != STOP && !w.count(tp) && tp < code_len) w[tp] = STOP;
		}
		if (!w.count(code_len - 1)) w[code_len - 1] = STOP;
		for (auto& p : w) code_sparse.push_back({p.first, p.second});
		new_code(base);
		Setup init; rand_regs(g, init, true); run(code_base + 4 * (code_len - 1), init);
		for (int rep = 0; rep < 6 && done < count; rep++) for (auto& sl : at) {
			if (done++ >= count) break;
			u64 p = sl.first; const Op& o = *sl.second; u32 iw = w[p]; u32 j = (iw >> 5) & 31, d = iw & 31; Setup s;
			auto setr = [&](u32 r, u64 v) { if (r) s.r.push_back({r, v}); };
			// branch chains may loop: only registers decide, so make loops rare and rely on the step limit
			if (o.f == B16) { u64 v = g.word(); setr(j, v); if (d != j) setr(d, g.chance(1, 3) ? v : g.chance(1, 3) ? v + 1 : g.word()); }
			else if (o.f == B21) setr(j, g.chance(1, 3) ? 0 : g.chance(1, 4) ? 0xFFFFFFFF00000000ull : g.word());
			else if (o.f == BC21) s.c.push_back({j & 7, (u8)g.below(2)});
			else if (o.f == J16) { i64 io = (i32)(iw << 6) >> 16; u64 t = g.chance(1, 12) ? (g.chance(1, 2) ? 0x1000 : 0x40000000000ull) : code_base + 4 * g.below(code_len); if (g.chance(1, 12)) t += 1 + g.below(3); setr(j, t - 4 * io); }
			run(code_base + 4 * p, s);
		}
	}
}

// system calls that carry their number in the instruction (fast engines only)
static bool g_immsys = false;
// whole programs: straight-line code, counted loops, forward branches, calls, memory traffic, faults
// sys: 0 none, 1 harmless system calls and stops, 2 every kind (including unknown numbers and throwing handlers)
static void gen_prog(Rng& g, unsigned longblock, int sys, bool faults) {
	static std::vector<Op> iops, mops, fops;
	if (iops.empty()) for (auto& o : OPS) { if (strchr("id", o.cls)) iops.push_back(o); if (strchr("mxla", o.cls)) mops.push_back(o); if (o.cls == 'f') fops.push_back(o); }
	{
		std::vector<u32>& c = code_words;
		auto emit_sys = [&] {
			static const std::vector<u32> safe = {490, 491, 491, 491, 495, 496}, all = {490, 491, 491, 494, 495, 496, 493, 489, 499, 500, 511, 512, 600, 4095, 0};
			u32 nr = g.pick(sys == 1 ? safe : all);
			if (g_immsys && g.chance(2, 3)) { // pcaddi ra, 2 ; syscall nr: it returns to ra
				if (sys == 2 && g.chance(1, 6)) nr = 492;
				if (nr == 0 || nr > 1023) nr = 490;
				if (nr == 494) c.push_back(0x00150000 | (20u + (u32)g.below(2)) << 5 | 5u);
				c.push_back(0x18000000 | (g.chance(1, 6) ? 3u : 2u) << 5 | 1u); bool skip = (c.back() >> 5 & 3) == 3;
				c.push_back(SYSCALL | nr); if (skip) c.push_back(g.pick(ILLEGAL)); return;
			}
			c.push_back(0x03800000 | nr << 10 | 11u);
			if (sys == 2 && g.chance(1, 12)) c.push_back(0x16000000 | (u32)(1 + g.below(0xFFFFF)) << 5 | 11u); // lu32i.d: a number beyond 32 bits
			if (sys == 2 && g.chance(1, 20)) { c.back() = 0x02BFFC00 | 11u; } // -1
			if (nr == 494) c.push_back(0x00150000 | (20u + (u32)g.below(2)) << 5 | 5u); // or a1, window
			if (g.chance(1, 40) && sys == 2) { c.push_back(BREAK); return; }
			c.push_back(SYSCALL);
			if (sys == 2 && g.chance(1, 8)) { // a handler that moves the pc: skip a few instructions
				c.push_back(0x03800000 | 492u << 10 | 11u); c.push_back(0x18000000 | (3u << 5) | 5u); c.push_back(SYSCALL); c.push_back(g.pick(ILLEGAL)); }
		};
		// r20: RW window base, r21: END window base, r22: RO window base, r23: index, r24..r26 loop counters (reserved)
		auto safe_dst = [&](u32 w) { u32 d = w & 31; return d < 20 || d > 26; };
		auto emit_random = [&](int n, bool faults) {
			for (int i = 0; i < n; i++) {
				u64 r = g.below(100); u32 w;
				if (sys && g.chance(1, n > 100 ? 3 * n : 12)) emit_sys(); // long blocks stay whole
				if (r < 60) { const Op& o = g.pick(iops); do w = gen(g, o); while (!safe_dst(w) || w == STOP); if (o.cls == 'd') { u32 k = (w >> 10) & 31; if (k == 0 || (k >= 20 && k <= 28) || k == 1) { w = (w & ~(31u << 10)) | 5u << 10; k = 5; } c.push_back(0x03800000 | 1 << 10 | k << 5 | k); } }
				else if (r < 90) {
					const Op& o = g.pick(mops);
					do w = fixfp(gen(g, o), o); while (!safe_dst(w));
					if (o.f == HINT) { c.push_back(w); continue; }
					u32 b = 20 + (u32)g.below(3); u32 st = !strncmp(o.name, "st", 2) || !strncmp(o.name, "fst", 3) || !strncmp(o.name, "sc", 2) || o.f == AMO;
					if (st && b == 22) b = 20;
					if (faults && g.chance(1, 60)) b = (u32)g.below(32);
					if (o.f == R3) { w = (w & ~(31u << 5) & ~(31u << 10)) | b << 5 | 23u << 10; }
					else if (o.f == I12) { w = (w & ~(31u << 5) & ~(0xFFFu << 10)) | b << 5 | (u32)g.below(110) << 10; }
					else if (o.f == I14) { w = (w & ~(31u << 5) & ~(0x3FFFu << 10)) | b << 5 | (u32)g.below(28) << 10; }
					else if (o.f == AMO) { u32 d = w & 31; u32 k = (w >> 10) & 31; if (d && d == k) w &= ~31u; w = (w & ~(31u << 5)) | b << 5; }
				} else { const Op& o = g.pick(fops); do w = fixfp(gen(g, o), o); while ((o.f == GR_CF || !strncmp(o.name, "movfr2gr", 8)) && !safe_dst(w)); }
				c.push_back(w);
			}
		};
		int nb = 1 + (int)g.below(5);
		u64 lo = longblock ? longblock : 0; int lb = (int)g.below(nb);
		for (int b = 0; b < nb; b++) {
			int len = lo && b == lb ? (int)(lo + g.below(80)) : (int)g.below(14);
			switch (g.below(6)) {
			case 0: { // counted loop
				u32 cr = 24 + b % 3; c.push_back(0x03800000 | (u32)(1 + g.below(7)) << 10 | cr); size_t top = c.size(); emit_random(1 + len, faults);
				c.push_back(0x02C00000 | 0xFFFu << 10 | cr << 5 | cr); i64 off = (i64)top - (i64)c.size(); c.push_back(g.chance(1, 2) ? b21(0x44000000, cr, off) : b16(0x5C000000, cr, 0, off)); break; }
			case 1: { // forward branch over a part
				size_t at = c.size(); c.push_back(0); emit_random(len, faults); size_t to = c.size(); u32 j = reg_for(g), d = reg_for(g); static const std::vector<u32> bs = {0x58000000,0x5C000000,0x60000000,0x64000000,0x68000000,0x6C000000};
				c[at] = g.chance(1, 4) ? b21(g.chance(1, 2) ? 0x48000000 : 0x48000100, (u32)g.below(8), to - at) : g.chance(1, 4) ? b21(g.chance(1, 2) ? 0x40000000 : 0x44000000, j, to - at) : b16(g.pick(bs), j, d, to - at); break; }
			case 2: { // call of a leaf placed inline
				c.push_back(b26(0x54000000, 2)); size_t skip = c.size(); c.push_back(0); // bl leaf ; b after
				size_t leaf = c.size(); (void)leaf; c.push_back(0x00150000 | 1u << 5 | 19u); /* or r19, r1, zero */ emit_random(len, false);
				// the leaf may clobber r19: save/restore through memory is not needed, jump through r19 only if intact
				c.push_back(0x00150000 | 0u); c.pop_back();
				c[skip] = b26(0x50000000, (i64)c.size() - (i64)skip); break; }
			case 3: { size_t at = c.size(); c.push_back(0); emit_random(len / 2, faults); c[at] = b26(0x50000000, (i64)c.size() - (i64)at); emit_random(len, faults); break; }
			case 4: if (g.chance(1, 5)) { c.push_back(g.pick(ILLEGAL)); } emit_random(len, faults); break;
			default: emit_random(len, faults);
			}
		}
		if (g.chance(1, 3)) { // leave through a register jump back to the end
			u32 r = 12; size_t n = c.size(); (void)n;
			c.push_back(0x18000000 | (3u << 5) | r); // pcaddi r12, 3
			c.push_back(b16(0x4C000000, r, g.chance(1, 2) ? r : 1, 0)); // jirl
			c.push_back(g.pick(ILLEGAL));
		}
		c.push_back(STOP);
		if (g.chance(1, 3)) emit_random(1 + g.below(5), false); // code behind the stop
	}
}
static void prog_setup(Rng& g, Setup& s) {
	rand_regs(g, s, true);
	for (u32 i = 0; i < 512; i++) s.m.push_back({i, (u8)g.next()});
	for (auto& p : s.r) { if (p.first == 20) p.second = RW; if (p.first == 21) p.second = END - 128; if (p.first == 22) p.second = RW - 128; if (p.first == 23) p.second = g.below(110); }
}
static void mode_prog(Rng& g, u64 count, unsigned longblock, int sys) {
	for (u64 done = 0; done < count; done++) {
		reset_code(); gen_prog(g, longblock, sys, g.chance(1, 2));
		u64 base = RO + 4 * g.below(64);
		if (base + 4 * code_words.size() > RW - 256) { done--; continue; }
		new_code(base);
		for (int rep = 0; rep < 2; rep++) { Setup s; prog_setup(g, s); run(base, s); }
	}
}
// one machine, one program, run in slices of every length by every engine
static void mode_limit(Rng& g, u64 count, unsigned longblock) {
	for (u64 done = 0; done < count; done++) {
		reset_code(); gen_prog(g, longblock, 1, false);
		u64 base = RO + 4 * g.below(64);
		if (base + 4 * code_words.size() > RW - 256) { done--; continue; }
		new_code(base);
		for (int rep = 0; rep < 3; rep++) {
			Setup s; prog_setup(g, s); const Setup none; i64 pc = base;
			// does it end? (another machine finds out)
			{ Eng& P = engs[2]; Snap z; P.load(z); for (auto& p : s.r) z.r[p.first] = p.second; for (auto& p : s.f) z.f[p.first] = p.second; for (auto& p : s.c) z.cc[p.first] = p.second; z.pc = base; P.store(z);
			  std::vector<u8> w = grab(P); for (auto& p : s.m) w[p.first] = p.second; put(P, w); bool ends = false;
			  g_now = "pilot run"; try { for (int i = 0; i < 40 && !ends; i++) if (P.m->simulate(3000, 0) && P.m->cpu.pc() >= 4 && word_at((P.m->cpu.pc() - 4 - base) / 4) == STOP) ends = true; } catch (...) { ends = true; }
			  if (!ends) break; }
			unsigned style = (unsigned)g.below(4);
			for (int i = 0; i < 60; i++) {
				u64 n = style == 0 ? 1 : style == 1 ? 1 + g.below(6) : style == 2 ? 1 + g.below(60) : 1 + g.below(400);
				u64 c0 = g.chance(1, 2) ? 0 : g.chance(1, 2) ? g.below(1000) : 0xFFFFFFFFull - g.below(40) + (g.chance(1, 2) ? 0 : 0x700000000ull);
				int eng = style == 3 && g.chance(1, 6) ? 2 : g.chance(1, 5) ? 0 : 1;
				if (g_immsys && eng == 0) eng = 1;
				if (eng == 1 && g.chance(1, 12)) n = 2000;
				std::string r = slice(eng, c0, c0 + n, pc, pc >= 0 ? s : none); pc = -1;
				if (r == "stop" && word_at((engs[1].m->cpu.pc() - 4 - base) / 4) == STOP) break;
				if (r != "stop" && r != "limit") break;
			}
		}
	}
}
// programs under the debugger: any number of steps at a time, up to a fault or the stop instruction (which it steps over)
static void mode_debug(Rng& g, u64 count) {
	for (u64 done = 0; done < count; done++) {
		bool faults = g.chance(1, 3); reset_code(); gen_prog(g, 0, faults ? 2 : 1, faults);
		u64 base = RO + 4 * g.below(64); new_code(base);
		for (int rep = 0; rep < 2; rep++) {
			Setup s; prog_setup(g, s); const Setup none; i64 pc = base; u64 total = 0; bool fault = false, ends = false;
			{ Eng& P = engs[2]; Snap z; P.load(z); for (auto& p : s.r) z.r[p.first] = p.second; for (auto& p : s.f) z.f[p.first] = p.second; for (auto& p : s.c) z.cc[p.first] = p.second; z.pc = base; P.store(z);
			  std::vector<u8> w = grab(P); for (auto& p : s.m) w[p.first] = p.second; put(P, w); P.m->set_max_instructions(UINT64_MAX); P.m->set_instruction_counter(0);
			  g_now = "pilot run"; try { while (total < 1500) { u64 p = P.m->cpu.pc(); if (p < code_base || p >= code_base + 4 * code_len) { fault = true; break; } if (p % 4 == 0 && word_at((p - code_base) / 4) == STOP) { ends = true; break; } P.m->set_max_instructions(UINT64_MAX); P.m->cpu.step_one(true); total++; } } catch (...) { fault = true; } }
			(void)ends; u64 left = total;
			for (int i = 0; i < 30 && (left || (fault && i < 29)); i++) {
				u64 n = g.chance(1, 4) ? 1 : g.chance(1, 2) ? 1 + g.below(30) : 1 + g.below(300); if (n > left) n = fault && left < 3 && engs[1].m->cpu.pc() % 4 == 0 && engs[1].m->cpu.pc() >= code_base && engs[1].m->cpu.pc() < code_base + 4 * code_len ? left + 1 : left; if (!n) break;
				if (g.chance(1, 8)) { slice(3, 0, 0, pc, pc >= 0 ? s : none); pc = -1; }
				u64 before = engs[1].m->instruction_counter(); (void)before;
				if (g.chance(1, 3)) engs[1].m->set_instruction_counter(g.below(5000)); // what an earlier run left behind
				std::string r = slice(3, 0, n, pc, pc >= 0 ? s : none); pc = -1; u64 did = engs[1].m->instruction_counter();
				if (r != "stop" && r != "limit") break;
				left -= did < left ? did : left; if (!left && !fault) break;
			}
		}
	}
}
// straight lines longer than a decoded block can describe (64 KiB), with something special around the place where they are divided
static void mode_huge(Rng& g, u64 count) {
	for (u64 done = 0; done < count; done++) {
		reset_code(); step_limit = 60000; code_dflt = g.chance(1, 2) ? 0x02C00400u | 13 << 5 | 13 : 0x0010B5ADu; // addi.d r13, r13, 1 or add.d r13, r13, r13
		u64 parts = g.chance(1, 4) ? 2 : 1, end = 16383 * parts + g.below(40); code_len = end + 1 + g.below(30);
		std::map<u64, u32> sp; sp[end] = g.chance(1, 3) ? 0x50000000u | 2 << 10 : STOP; // b +8
		for (u64 q = 1; q <= parts; q++) for (i64 d = -3; d <= 3; d++) { i64 at = (i64)end - 16383 * (i64)q - d; if (at < 0 || !g.chance(1, 2)) continue; u32 w = 0; u32 rd = 4 + (u32)g.below(9);
			switch (g.below(9)) { case 0: w = 0x28C00000u | 20 << 5 | rd; break; case 1: w = 0x29C00000u | 20 << 5 | rd; break; case 2: w = 0x18000000u | (u32)g.below(1u << 20) << 5 | rd; break; case 3: w = 0x1A000000u | (u32)g.below(8) << 5 | rd; break;
				case 4: w = 0x00150000u | 13 << 5 | rd; break; case 5: w = 0x02C00000u | (u32)g.below(4096) << 10 | rd; break; case 6: if (g.chance(1, 3)) { w = 0x28C00000u | 25 << 5 | rd; } break; case 7: w = 0x03400000u; break; case 8: w = 0x38780000u | 14 << 10 | 20 << 5 | rd; break; }
			if (w) sp[at] = w; }
		for (auto& p : sp) code_sparse.push_back(p);
		u64 base = RO + 4 * g.below(64); new_code(base);
		for (int rep = 0; rep < 2; rep++) {
			Setup s; prog_setup(g, s); for (auto& p : s.r) if (p.first == 25) p.second = g.word() | 1ull << 40;
			u64 from = end >= 16383 * parts ? g.below(std::min<u64>(end - 16383 * parts + 1, 20) + 3) : 0; if (rep) from = g.below(end);
			if (rep == 0 || g.chance(1, 2)) run(base + 4 * from, s); else { const Setup none; i64 pc = base + 4 * from; for (int i = 0; i < 4; i++) { std::string r = slice(i % 2 ? 0 : 1, 0, i % 2 ? 1 + g.below(50) : 1 + g.below(3000), pc, pc >= 0 ? s : none); pc = -1; if (r != "limit") break; } }
		}
		step_limit = 1500;
	}
}
static void gen_fill(Rng& g, int n) {
	std::vector<u32> keep = code_words; code_words.clear(); std::vector<u32> out;
	while ((int)out.size() < n) { code_words.clear(); gen_prog(g, 0, 0, false); for (u32 w : code_words) { u32 o6 = w >> 26; if (w == STOP || (o6 >= 16 && o6 <= 27) || (int)out.size() >= n) break; if ((w & 31) >= 20 && (w & 31) <= 28) continue; bool ill = false; for (u32 x : ILLEGAL) ill |= x == w; if (!ill) out.push_back(w); } }
	code_words = keep; code_words.insert(code_words.end(), out.begin(), out.end());
}
// every kind of fault at every position of a block; the same machine is then sent on
static void mode_fault(Rng& g, u64 count) {
	static const std::vector<u64> badaddr = {0, 8, 0xFFF8, END, END + 8, 0x7FFFFFFF0ull, ~0ull, ~7ull, 0x8000000000000000ull};
	static const std::vector<const char*> loads = {"ld.b","ld.h","ld.w","ld.d","ld.bu","ld.hu","ld.wu","fld.s","fld.d","ldptr.w","ldptr.d","ll.w","ll.d"}, stores = [] { std::vector<const char*> v = {"st.b","st.h","st.w","st.d","fst.s","fst.d","stptr.w","stptr.d"}; for (auto& x : OPS) if (x.f == AMO) v.push_back(x.name); return v; }();
	for (u64 done = 0; done < count; done++) {
		reset_code(); auto& c = code_words;
		struct Part { size_t at; }; std::vector<Part> parts;
		for (int p = 0; p < 6; p++) {
			parts.push_back({c.size()});
			auto filler = [&](int n) { gen_fill(g, n); };
			filler((int)g.below(9));
			const Op* o = nullptr; auto byname = [&](const char* n) { for (auto& x : OPS) if (!strcmp(x.name, n)) return &x; return (const Op*)nullptr; };
			switch (g.below(8)) {
			case 0: c.push_back(g.pick(ILLEGAL)); break;
			case 1: o = byname(g.pick(loads)); break;
			case 2: o = byname(g.pick(stores)); break;
			case 3: c.push_back(0x4C000000 | 27u << 5 | (u32)(g.chance(1, 2) ? 0 : g.chance(1, 3) ? 27 : 1)); break; // jirl through r27 (outside)
			case 4: c.push_back(0x03800000 | (u32)(g.chance(1, 2) ? 499 : 600 + g.below(3000)) << 10 | 11u); c.push_back(SYSCALL); break;
			case 5: c.push_back(0x03800000 | 493u << 10 | 11u); c.push_back(SYSCALL); break;
			case 6: c.push_back(BREAK); break;
			default: { i64 off = g.chance(1, 2) ? -(i64)c.size() - 1 - (i64)g.below(2000) : 4000 + g.below(4000); u32 r = (u32)g.below(3); c.push_back(r == 0 ? b26(0x50000000, off) : r == 1 ? b26(0x54000000, off) : b16(0x58000000, 3, 3, off)); }
			}
			if (o) { u32 d = reg_for(g); if (d >= 20 && d <= 28) d = 6; u32 w = o->base | 28u << 5 | d; if (o->f == AMO) w |= 6u << 10; if (o->f == AMO && d == 6) w &= ~31u; if (o->cls == 'x') w = fixfp(w, *o); c.push_back(w); }
			filler((int)g.below(5)); c.push_back(STOP);
		}
		u64 base = RO + 4 * g.below(64); new_code(base);
		bool first = true;
		for (int rep = 0; rep < 12; rep++) {
			Setup s; if (first) prog_setup(g, s); first = false;
			u64 jt = g.chance(1, 3) ? base + 2 : g.chance(1, 2) ? RW + 8 * g.below(8) : g.pick(badaddr);
			s.r.push_back({27, jt}); s.r.push_back({28, g.chance(1, 5) ? RW - 64 - g.below(8) : g.pick(badaddr)});
			std::string r = slice(g.chance(1, 4) ? 0 : g.chance(1, 2) ? 1 : 2, 0, 2000, base + 4 * g.pick(parts).at, s);
		}
	}
}

int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", ""));
	std::string mode = arg(argc, argv, "mode", "int");
	g_immsys = argn(argc, argv, "imm", 0); if (g_immsys) use_engines = {1, 2};
	u64 shard = argn(argc, argv, "shard", 0), seed = argn(argc, argv, "seed", 1), count = argn(argc, argv, "count", 300);
	{ Machine warm(std::string_view{}, *opts); }
	install_handlers();
	Rng g(seed * 1000003 + shard * 7919 + std::hash<std::string>{}(mode) % 1000);
	if (mode == "int") mode_single(g, count, "i");
	else if (mode == "div") mode_single(g, count, "d");
	else if (mode == "mem") mode_single(g, count, "mla");
	else if (mode == "fp") mode_single(g, count, "fx");
	else if (mode == "br") mode_branch(g, count);
	else if (mode == "prog") mode_prog(g, count, 0, 0);
	else if (mode == "long") mode_prog(g, count, argn(argc, argv, "block", 300), 0);
	else if (mode == "sys") mode_prog(g, count, 0, 2);
	else if (mode == "corner") { Slots l = corner_words(g, shard, argn(argc, argv, "shards", 8), arg(argc, argv, "class", "idmxlaf")); mode_single(g, 0, "", &l, argn(argc, argv, "reps", 1)); }
	else if (mode == "limit") mode_limit(g, count, argn(argc, argv, "block", 0));
	else if (mode == "fault") mode_fault(g, count);
	else if (mode == "huge") mode_huge(g, count);
	else if (mode == "debug") mode_debug(g, count);
	else return 3;
	fclose(g_out);
	fprintf(stdout, "DRIVER runs=%lu\n", (long)g_runs);
	return 0;
}
