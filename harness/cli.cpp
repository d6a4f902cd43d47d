// Runs the command line emulator on generated programs and command lines and records what a shell would see.
#include "elfgen.hpp"
#include <climits>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
static const u64 BASE = 0x10000, TEXT = 0x20000, DATA = 0x40000;
static u64 g_runs = 0; static std::string g_dir, g_emu;
static u32 I12(u32 op, int rd, int rj, u32 imm) { return op << 22 | (imm & 0xFFF) << 10 | rj << 5 | rd; }
static void li(std::vector<u32>& c, int rd, u32 v) { c.push_back(0x14000000u | (v >> 12) << 5 | rd); c.push_back(I12(0x0E, rd, rd, v & 0xFFF)); }       // 2 instructions
static void li64(std::vector<u32>& c, int rd, u64 v) { li(c, rd, (u32)v); c.push_back(0x16000000u | (u32)(v >> 32 & 0xFFFFF) << 5 | rd); c.push_back(I12(0x0C, rd, rd, v >> 52)); } // 4
static const u32 SYSCALL = 0x002B0000u;
static std::string nl(std::string s) { for (char& c : s) if (c == '\n') c = '|'; return s; }
static std::string words(Rng& g, size_t n) { static const char* A = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,:;%$#@!*()-+='<>?/_[]{}\n"; std::string s; for (size_t i = 0; i < n; i++) s += A[g.below(69)]; return s; }
struct Sym { std::string op, s; i64 n = 0; u64 at = 0; };
struct Res { int status = -1, sig = 0; std::string out, err; bool hung = false; };
static Res spawn(const std::vector<std::string>& av) {
	int o[2], e[2]; if (pipe(o) || pipe(e)) abort(); fflush(nullptr); pid_t p = fork();
	if (!p) { dup2(o[1], 1); dup2(e[1], 2); int n = open("/dev/null", O_RDONLY); dup2(n, 0); for (int f : {o[0], o[1], e[0], e[1]}) close(f); (void)!chdir(g_dir.c_str()); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1", 1); alarm(60);
		std::vector<char*> a; for (auto& s : av) a.push_back((char*)s.c_str()); a.push_back(nullptr); execv(g_emu.c_str(), a.data()); _exit(98); }
	close(o[1]); close(e[1]); Res r; char b[65536]; pollfd pf[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}}; int open_ = 2;
	while (open_) { poll(pf, 2, -1); for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && pf[i].revents) { ssize_t n = read(pf[i].fd, b, sizeof b); if (n <= 0) { close(pf[i].fd); pf[i].fd = -1; open_--; } else (i ? r.err : r.out).append(b, n); } }
	int st; waitpid(p, &st, 0); if (WIFEXITED(st)) r.status = WEXITSTATUS(st); else { r.sig = WTERMSIG(st); r.hung = r.sig == SIGALRM; } return r;
}
static bool num_at(const std::string& s, size_t p, i64& v) { char* e; if (p >= s.size()) return false; errno = 0; v = strtoll(s.c_str() + p, &e, 10); return e != s.c_str() + p; }
static void one(Rng& g, int k) {
	// ---- the program ----
	std::vector<Sym> prog; std::vector<std::string> gargs; static const char* AS[] = {"x", "--verbose", "-s", "--fuel", "-f", "10", "--", "-", "-h", "--guest-arg", "value", "a b", "%s%n", "-m1", "--memory=1", "--precise", "-vst", "--help"};
	for (int i = g.chance(1, 2) ? 0 : g.below(5); i-- > 0;) gargs.push_back(g.chance(3, 4) ? AS[g.below(18)] : [&] { std::string t = words(g, 1 + g.below(12)); return nl(t); }());
	std::string path = "p" + std::to_string(k % 7) + (g.chance(1, 8) ? " x" : ".elf");
	u64 mem = 0; static const u64 MS[] = {24, 32, 33, 64, 100, 256, 1024, 4096, 5000}; if (g.chance(1, 2)) mem = MS[g.below(9)]; u64 top = (mem ? mem : 256) << 20; int nops = g.below(7); bool ended = false;
	for (int i = 0; i < nops; i++) { Sym s; switch (g.below(8)) {
		case 0: case 1: s.op = "write"; s.s = g.chance(1, 8) ? words(g, 1000 + g.below(3000)) : g.chance(1, 8) ? "Program exited with code 3\n" : words(g, g.below(40)); break;
		case 2: s.op = "arg"; s.n = g.below(gargs.size() + 1); break;
		case 3: case 4: s.op = "spin"; s.n = 1 + g.below(g.chance(1, 5) ? 100000 : 300); break;
		case 5: s.op = "touch"; { const u64 A[] = {DATA, DATA + 8, DATA + 0x1FF8, top / 2, DATA + 8 * g.below(1000)}; s.at = A[g.below(5)]; } break;
		case 6: s.op = "argc"; break;
		default: s.op = "spin"; s.n = 1; } prog.push_back(s); }
	{ Sym s; switch (g.below(10)) {
		case 0: { s.op = "touch"; const u64 A[] = {0, BASE, TEXT, top, top + 8, top - 8, top + 64, 1ull << 40, ~7ull, 1ull << 63, top + 4096}; s.at = A[mem ? g.below(11) : g.below(3)]; prog.push_back(s); s.op = "exit"; s.n = 5; s.at = 0; break; }
		case 1: { s.op = "go"; const u64 A[] = {0, 4, top, 1ull << 40, ~3ull}; s.at = A[g.below(5)]; if (!mem && s.at == top) s.at = 1ull << 40; break; }
		case 2: s.op = "illegal"; s.n = g.below(2); break;
		case 3: s.op = "exitargc"; break;
		default: s.op = g.chance(1, 2) ? "exit" : "exitgroup"; { const i64 C[] = {0, 1, 2, 42, 127, 128, 255, 256, 257, -1, -2, 1000, INT_MAX, INT_MIN}; s.n = C[g.below(14)]; } }
		prog.push_back(s); ended = true; } (void)ended;
	std::vector<u32> c; std::string text; u64 skip = g.below(4); for (u64 i = 0; i < skip; i++) c.push_back(0x002A0000u);
	for (auto& s : prog) {
		if (s.op == "write") { li(c, 5, TEXT + text.size()); li(c, 6, s.s.size()); c.push_back(I12(0x0B, 4, 0, 1)); c.push_back(I12(0x0B, 11, 0, 64)); c.push_back(SYSCALL); text += s.s; }
		else if (s.op == "arg") { size_t len = s.n ? gargs[s.n - 1].size() : path.size(); c.push_back(I12(0xA3, 5, 3, 8 + 8 * s.n)); li(c, 6, len); c.push_back(I12(0x0B, 4, 0, 1)); c.push_back(I12(0x0B, 11, 0, 64)); c.push_back(SYSCALL); }
		else if (s.op == "spin") { li(c, 12, s.n); c.push_back(I12(0x0B, 12, 12, ~0u)); c.push_back(0x44000000u | (u32(-1) & 0xFFFF) << 10 | 12 << 5 | 0x1F); }
		else if (s.op == "touch") { li64(c, 13, s.at); c.push_back(I12(0xA7, 12, 13, 0)); c.push_back(I12(0xA3, 12, 13, 0)); }
		else if (s.op == "argc") { c.push_back(I12(0xA3, 4, 3, 0)); c.push_back(I12(0x0B, 4, 4, 48)); li(c, 13, DATA + 0x3000); c.push_back(I12(0xA4, 4, 13, 0)); c.push_back(0x00150000u | 13 << 5 | 5); c.push_back(I12(0x0B, 6, 0, 1)); c.push_back(I12(0x0B, 4, 0, 1)); c.push_back(I12(0x0B, 11, 0, 64)); c.push_back(SYSCALL); }
		else if (s.op == "go") { li64(c, 13, s.at); c.push_back(0x4C000000u | 13 << 5); }
		else if (s.op == "illegal") c.push_back(s.n ? 0xFFFFFFFFu : 0u);
		else if (s.op == "exitargc") { c.push_back(I12(0xA3, 4, 3, 0)); c.push_back(I12(0x0B, 11, 0, 93)); c.push_back(SYSCALL); }
		else { li(c, 4, (u32)s.n); c.push_back(I12(0x0B, 11, 0, s.op == "exit" ? 93 : 94)); c.push_back(SYSCALL); }
	}
	u64 ninstr = c.size() + g.below(5); while (c.size() < ninstr) c.push_back(0x002A0000u);
	ElfSpec e; Seg s{}; s.type = 1; s.flags = 5; s.vaddr = BASE; s.data.resize(4 * c.size()); memcpy(s.data.data(), c.data(), s.data.size()); s.filesz = s.memsz = s.data.size(); e.segs.push_back(s);
	Seg t{}; t.type = 1; t.flags = 4; t.vaddr = TEXT; t.data.assign(text.begin(), text.end()); t.data.resize(t.data.size() + 16); t.filesz = t.memsz = t.data.size(); e.segs.push_back(t);
	Seg w{}; w.type = 1; w.flags = 6; w.vaddr = DATA; w.filesz = 0; w.memsz = 0x4000; e.segs.push_back(w); e.entry = BASE + 4 * skip;
	std::vector<u8> file = e.build(g);
	// ---- what is wrong with the file, if anything ----
	std::string kind = "elf"; if (g.chance(1, 8)) { static const char* K[] = {"missing", "short", "noelf", "elf32", "badclass", "machine", "empty", "cut", "tiny", "huge"}; kind = K[g.below(10)]; }
	if (kind == "tiny") mem = g.below(3); if (kind == "huge") mem = 200000000 + g.below(100000000); bool small = kind == "tiny";
	if (kind == "short") file.resize(1 + g.below(4)); if (kind == "empty") file.clear(); if (kind == "noelf") file[g.below(4)] ^= 1 + g.below(255); if (kind == "elf32") file[4] = 1; if (kind == "badclass") file[4] = g.chance(1, 2) ? 0 : 3 + g.below(253); if (kind == "machine") file[18] ^= 1 + g.below(255); if (kind == "cut") file.resize(5 + g.below(59));
	std::string full = g_dir + "/" + path; ::unlink(full.c_str()); if (kind != "missing") { FILE* f = fopen(full.c_str(), "wb"); if (!f) abort(); fwrite(file.data(), 1, file.size(), f); fclose(f); }
	// ---- the command line ----
	bool silent = g.chance(1, 3), precise = g.chance(1, 3), timing = g.chance(1, 4), stats = g.chance(1, 6), verbose = g.chance(1, 10); i64 fuel = -2; u64 total = 0; for (auto& q : prog) total += q.op == "spin" ? 2 + 2 * q.n : q.op == "write" ? 7 : q.op == "exit" || q.op == "exitgroup" ? 4 : q.op == "argc" ? 10 : q.op == "exitargc" ? 3 : 6;
	if (g.chance(1, 2)) switch (g.below(7)) { case 0: fuel = 0; break; case 1: fuel = -1; break; case 2: fuel = 1 + g.below(10); break; case 3: fuel = 1 + g.below(total + 1); break; case 4: fuel = total + g.below(5) - 2; break; case 5: fuel = total * 2 + 100; break; default: fuel = 2000000000; }
	if (fuel < -2) fuel = 1;
	std::vector<std::string> av; auto opt = [&](char sh, const char* lo, const std::string* v) { std::string ss = std::string("-") + sh; bool has_s = sh != '_'; if (!v) { av.push_back(has_s && g.chance(1, 2) ? ss : std::string("--") + lo); return; } switch (g.below(4)) { case 0: av.push_back(ss); av.push_back(*v); break; case 1: av.push_back(ss + *v); break; case 2: av.push_back(std::string("--") + lo + "=" + *v); break; default: av.push_back(std::string("--") + lo); av.push_back(*v); } };
	std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7}; for (int i = 7; i > 0; i--) std::swap(order[i], order[g.below(i + 1)]);
	std::string usage = "run"; if (g.chance(1, 16)) { static const char* U[] = {"help", "none", "bad"}; usage = U[g.below(3)]; }
	for (int i : order) { if (i == 0 && silent) opt('s', "silent", nullptr); if (i == 1 && precise) opt('_', "precise", nullptr); if (i == 2 && timing) opt('t', "timing", nullptr); if (i == 3 && stats) opt('_', "stats", nullptr); if (i == 4 && verbose) opt('v', "verbose", nullptr);
		if (i == 5 && fuel > -2) { std::string v = fuel == -1 ? (g.chance(1, 2) ? "max" : "MAX") : std::to_string(fuel); opt('f', "fuel", &v); } if (i == 6 && (mem || small)) { std::string v = std::to_string(mem); opt('m', "memory", &v); } if (i == 7 && g.chance(1, 6)) { static const char* X[] = {"-n", "--no-translate", "--no-regcache", "--fast", "--nbit-as", "-T"}; av.push_back(X[g.below(6)]); } }
	if (usage == "help") av.push_back(g.chance(1, 2) ? "-h" : "--help"); if (usage == "bad") av.push_back(g.chance(1, 2) ? "--no-such-option" : "-q"); if (g.chance(1, 8)) av.push_back("--");
	av.insert(av.begin(), "laemu"); if (usage != "none") { av.push_back(path); for (auto& a : gargs) av.push_back(a); }
	std::string now; for (auto& a : av) now += " " + a; g_now = "emulator:" + now;
	Res r = spawn(av); g_runs++;
	// ---- what was seen ----
	std::string out = r.out, sum = "none"; i64 code = 0, cnt = -1, srows = -1, stot = -1; bool tail = true; size_t p = out.rfind("Program exited with code ");
	auto ends = [&](size_t q) { size_t x = out.find('\n', q); return x != std::string::npos && x + 1 == out.size(); };
	if (usage == "run" && !silent && r.err.find("Machine exception: ") == std::string::npos && r.err.find("Execution timeout") == std::string::npos && p != std::string::npos && ends(p) && num_at(out, p + 25, code)) { std::string ln = out.substr(p); sum = "exit"; size_t q = ln.find(" after "); if (q != std::string::npos) num_at(ln, q + 7, cnt); out.resize(p); }
	if (stats && (p = out.rfind("\n=== Bytecode Usage Statistics ===\n")) != std::string::npos) { std::string tb = out.substr(p); out.resize(p); size_t q = tb.rfind("Total instructions in cache: "); if (q != std::string::npos) { num_at(tb, q + 29, stot); srows = 0; size_t at = tb.rfind("-----\n", q); at = at == std::string::npos ? q : at + 6; while (at < q) { size_t x = tb.find('\n', at); std::string ln = tb.substr(at, x - at); at = x + 1; char nm[80]; long v; double pc; if (sscanf(ln.c_str(), "%79s %ld %lf%%", nm, &v, &pc) == 3) srows += v; } } }
	(void)tail; std::string err = "none"; i64 tn = -1; u64 data = 0; bool count_line = false;
	if ((p = r.err.find("Execution timeout after ")) != std::string::npos) { err = "timeout"; num_at(r.err, p + 24, tn); }
	else if ((p = r.err.find("Machine exception: ")) != std::string::npos) { err = "machine"; size_t q = r.err.find("data: 0x", p); if (q != std::string::npos) data = strtoull(r.err.c_str() + q + 8, nullptr, 16); count_line = r.err.find("Instruction count: ") != std::string::npos; }
	else if (r.err.find("AddressSanitizer") != std::string::npos) err = "sanitizer"; else if (!r.err.empty()) err = "other";
	bool help = r.out.find("Usage: ") != std::string::npos && r.out.find("--fuel") != std::string::npos;
	Out o; o.obj(); o.kstr("e", "cmd"); o.kstr("line", nl(now)); o.kstr("usage", usage); o.kstr("file", kind); o.kstr("path", path); o.karr("args"); for (auto& a : gargs) o.str(nl(a)); o.end();
	o.kbool("silent", silent); o.kbool("precise", precise); o.kbool("timing", timing); o.kbool("stats", stats); o.kbool("verbose", verbose); o.knum("fuel", fuel); o.kbytes("top", mem << 20); o.knum("ninstr", ninstr);
	o.karr("prog"); for (auto& q : prog) { o.obj(); o.kstr("op", q.op); o.kstr("s", nl(q.s)); o.knum("n", q.n); o.kbytes("at", q.at); o.eobj(); } o.end();
	o.knum("status", r.status); o.knum("sig", r.sig); o.kstr("text", nl(usage == "run" ? out : "")); o.kstr("sum", sum); o.knum("code", code); o.knum("cnt", cnt); o.knum("srows", srows); o.knum("stot", stot); o.kstr("err", err); o.knum("tn", tn); o.kbytes("data", data); o.kbool("count", count_line); o.kbool("help", help);
	o.kstr("said", nl(r.err.substr(0, 200))); o.eobj(); emit(o); ::unlink(full.c_str());
}
int main(int argc, char** argv) {
	common_init(arg(argc, argv, "out", "")); u64 seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0), count = argn(argc, argv, "count", 40);
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return 3; self[n] = 0; g_emu = std::string(self).substr(0, std::string(self).rfind('/')) + "/laemu"; if (access(g_emu.c_str(), X_OK)) return 3;
	char tmpl[] = "/tmp/cli.XXXXXX"; if (!mkdtemp(tmpl)) return 3; g_dir = tmpl;
	Rng g(seed * 1000003 + shard * 7919 + 17); for (u64 i = 0; i < count; i++) one(g, i); rmdir(g_dir.c_str());
	fclose(g_out); fprintf(stdout, "DRIVER runs=%lu\n", (long)g_runs); return 0;
}
