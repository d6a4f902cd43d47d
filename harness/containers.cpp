// Host operations on guest strings and vectors (C++ and Rust), scoped objects and objects in guest memory.
// paths=FILE of=N shard=I replays operation sequences of the model; otherwise random histories.
#include "common.hpp"
#include <libloong/guest_datatypes.hpp>
#include <array>
#include <fstream>
#include <functional>
#include <sstream>
struct Quad { u64 v; u32 tail; }; // 16 bytes
static bool operator==(const Quad& a, const Quad& b) { return a.v == b.v; }
typedef std::vector<int> Nums; typedef std::vector<Nums> Rows;
struct Val { Nums n; Rows r; bool bad = false; }; // strings and plain vectors use n, nested ones r
typedef GuestStdString Str; typedef GuestRustString RStr;
typedef GuestStdVector<u32> VI; typedef GuestStdVector<Quad> VQ; typedef GuestStdVector<Str> VS; typedef GuestStdVector<VI> VV;
typedef GuestRustVector<u32> RVI; typedef GuestRustVector<RStr> RVS;
template <class T> struct Tr;
template <> struct Tr<Str> { static constexpr const char* k = "str"; static constexpr bool flat = true, rust = false, nested = false; };
template <> struct Tr<RStr> { static constexpr const char* k = "rstr"; static constexpr bool flat = true, rust = true, nested = false; };
template <> struct Tr<VI> { static constexpr const char* k = "vi"; static constexpr bool flat = false, rust = false, nested = false; typedef u32 E; };
template <> struct Tr<VQ> { static constexpr const char* k = "vq"; static constexpr bool flat = false, rust = false, nested = false; typedef Quad E; };
template <> struct Tr<VS> { static constexpr const char* k = "vs"; static constexpr bool flat = false, rust = false, nested = true; typedef Str E; };
template <> struct Tr<VV> { static constexpr const char* k = "vv"; static constexpr bool flat = false, rust = false, nested = true; typedef VI E; };
template <> struct Tr<RVI> { static constexpr const char* k = "rvi"; static constexpr bool flat = false, rust = true, nested = false; typedef u32 E; };
template <> struct Tr<RVS> { static constexpr const char* k = "rvs"; static constexpr bool flat = false, rust = true, nested = true; typedef RStr E; };

static std::string text(const Nums& n) { std::string s; for (int c : n) s += char(c); return s; }
static Nums nums(std::string_view s) { Nums n; for (char c : s) n.push_back((unsigned char)c); return n; }
static u32 el(u32*, int x) { return x; } static Quad el(Quad*, int x) { return Quad{u64(x), 0xABCD}; }
static int un(u32 x) { return x; } static int un(const Quad& q) { return q.tail == 0xABCD || q.v == 0 ? (int)q.v : -7; }
struct Refused {}; // the temporaries needed for an operation could not be built

struct World {
	Rng& r; std::unique_ptr<Machine> m; u64 base = 0, size = 0; std::map<u64, u64> filler;
	explicit World(Rng& rr) : r(rr) {}
	Arena& h() { return m->arena(); }
	u64 room() { u64 lo = 0, hi = size / 16; while (lo < hi) { u64 mid = (lo + hi + 1) / 2; u64 p = h().malloc(mid * 16); if (p) { h().free(p); lo = mid; } else hi = mid - 1; } return lo * 16; }
	u64 rd(u64 a) { return m->memory.read<u64>(a); }
};
struct Block { u64 at, need; };
struct View { Val host, guest; bool null = false; i64 cap = 0; std::vector<Block> blocks; std::vector<std::array<i64, 3>> strs; };

struct Base {
	World& w; bool scoped; u64 at = 0;
	Base(World& ww, bool s) : w(ww), scoped(s) {}
	virtual ~Base() {}
	virtual const char* kind() = 0; virtual bool flat() = 0; virtual bool nested() = 0; virtual bool rust() = 0;
	virtual bool null() { return false; } virtual View view() = 0; virtual size_t size() = 0;
	virtual void make(const Val&, std::string&) = 0; virtual void set(const Val&, std::string&) = 0;
	virtual void push(const Val&, std::string&) = 0; virtual void pushown(u64, std::string&) = 0; virtual void setown(u64, u64, std::string&) = 0;
	virtual void append(const Val&, std::string&) = 0; virtual void pop() = 0; virtual void resize(u64) = 0; virtual void reserve(u64) = 0; virtual void clear() = 0;
	virtual void setat(u64, const Val&, std::string&) = 0; virtual void pushat(u64, int) = 0; virtual void release() = 0; virtual void destroy() = 0; virtual void move(Base&, std::string&) = 0;
};
template <class T> struct Box : Base {
	std::unique_ptr<ScopedArenaObject<T>> sc;
	using Base::Base;
	Machine& M() { return *w.m; }
	T& get() { if (scoped) return **sc; return *M().memory.template writable_memarray<T>(at, 1); }
	u64 self() { return scoped ? sc->address() : at; }
	const char* kind() override { return Tr<T>::k; } bool flat() override { return Tr<T>::flat; } bool nested() override { return Tr<T>::nested; } bool rust() override { return Tr<T>::rust; }
	bool null() override { return scoped && sc->address() == 0; }
	size_t size() override { return null() ? 0 : get().size(); }
	static constexpr bool is_str = std::is_same_v<T, Str>, is_rstr = std::is_same_v<T, RStr>, is_vs = std::is_same_v<T, VS>, is_vv = std::is_same_v<T, VV>, is_rvs = std::is_same_v<T, RVS>, is_rvi = std::is_same_v<T, RVI>;
	static constexpr bool is_cvec = !Tr<T>::flat && !Tr<T>::rust, plain = std::is_same_v<T, VI> || std::is_same_v<T, VQ>;

	// elements that own storage, for operations that take over what they are given
	auto elems(const Rows& rows) {
		typedef typename Tr<T>::E E; std::vector<E> v; v.reserve(rows.size());
		try { for (auto& x : rows) {
			if constexpr (is_vv) v.push_back(E(M(), std::vector<u32>(x.begin(), x.end())));
			else v.push_back(E(M(), std::string_view(text(x)))); }
		} catch (...) { for (auto& e : v) e.free(M()); throw; }
		return v;
	}
	static std::vector<std::string> texts(const Rows& rows) { std::vector<std::string> t; for (auto& x : rows) t.push_back(text(x)); return t; }
	template <class... A> void build(A&&... a) { if (scoped) sc = std::make_unique<ScopedArenaObject<T>>(M(), std::forward<A>(a)...); else {
		T* p = M().memory.template writable_memarray<T>(at, 1);
		if constexpr (is_str) new (p) T(M(), at, std::forward<A>(a)...); else new (p) T(M(), std::forward<A>(a)...); } }
	void make(const Val& v, std::string& how) override {
		if constexpr (Tr<T>::flat) { build(std::string_view(text(v.n))); how = "text"; }
		else if constexpr (plain || is_rvi) { typedef typename Tr<T>::E E; std::vector<E> e; for (int x : v.n) e.push_back(el((E*)0, x));
			bool zeros = true; for (int x : v.n) zeros &= x == 0;
			if constexpr (plain) if (v.n.size() == 3 && w.r.chance(1, 2) && !scoped) { std::array<E, 3> a{e[0], e[1], e[2]}; T t(M(), std::vector<E>(a.begin(), a.end())); new (M().memory.template writable_memarray<T>(at, 1)) T(std::move(t)); how = "moved"; return; }
			if (zeros && w.r.chance(1, 2)) { build(v.n.size()); how = "count"; } else { build(e); how = "elements"; } }
		else if constexpr (is_vs || is_rvs) { bool zeros = true; for (auto& x : v.r) zeros &= x.empty();
			if (zeros && w.r.chance(1, 2)) { build(v.r.size()); how = "count"; } else { build(texts(v.r)); how = "texts"; } }
		else { auto e = elems(v.r); try { build(e); } catch (...) { for (auto& x : e) x.free(M()); throw; } how = "elements"; }
	}
	void set(const Val& v, std::string& how) override {
		if constexpr (Tr<T>::flat) {
			std::string t = text(v.n);
			if (null() || (scoped && w.r.chance(1, 3))) {
				if constexpr (is_str) if (w.r.chance(1, 2)) { how = "=text"; *sc = std::string_view(t); return; }
				how = "=object"; T o(M(), std::string_view(t)); try { *sc = o; } catch (...) { o.free(M()); throw; }
			} else if constexpr (is_str) { if (w.r.chance(1, 2)) { how = "set_string"; get().set_string(M(), self(), t); } else { bool z = w.r.chance(1, 2); how = z ? "set_string memarray" : "set_string copy"; get().set_string(M(), self(), t.data(), t.size(), z); } }
			else { if (w.r.chance(1, 2)) { how = "set_string"; get().set_string(M(), t); } else { bool z = w.r.chance(1, 2); how = z ? "set_string memarray" : "set_string copy"; get().set_string(M(), t.data(), t.size(), z); } }
		} else if constexpr (plain || is_rvi) {
			typedef typename Tr<T>::E E; std::vector<E> e; for (int x : v.n) e.push_back(el((E*)0, x));
			if (null() || (scoped && w.r.chance(1, 3))) {
				if constexpr (plain) if (w.r.chance(1, 2)) { how = "=vector"; *sc = e; return; }
				how = "=object"; T o(M(), e); try { *sc = o; } catch (...) { o.free(M()); throw; }
			} else if constexpr (plain) { if (w.r.chance(1, 2)) { how = "assign"; get().assign(M(), e); } else { how = "assign array"; get().assign(M(), e.data(), e.size()); } }
			else { how = "assign"; get().assign(M(), e); }
		} else {
			auto e = elems(v.r);
			if (null() || (scoped && w.r.chance(1, 2))) {
				how = "=object"; T o = [&] { try { return T(M(), e); } catch (...) { for (auto& x : e) x.free(M()); throw; } }();
				try { *sc = o; } catch (...) { o.free(M()); throw; }
			} else { how = "assign"; try { get().assign(M(), e); } catch (...) { for (auto& x : e) x.free(M()); throw; } }
		}
	}
	void push(const Val& v, std::string& how) override {
		if constexpr (plain) { typedef typename Tr<T>::E E; if (w.r.chance(1, 2)) { const E e = el((E*)0, v.n[0]); get().push_back(M(), e); how = "copy"; } else { get().push_back(M(), el((E*)0, v.n[0])); how = "temporary"; } }
		else if constexpr (is_vs) {
			if (w.r.chance(1, 2)) { how = "text"; get().push_back(M(), std::string_view(text(v.n))); }
			else { how = "object"; Str s(M(), std::string_view(text(v.n))); try { if (w.r.chance(1, 2)) get().push_back(M(), std::move(s)); else get().push_back(M(), (const Str&)s); } catch (...) { s.free(M()); throw; } }
		} else if constexpr (is_vv) {
			std::vector<u32> e(v.n.begin(), v.n.end());
			if (w.r.chance(1, 2)) { how = "vector"; get().push_back(M(), e); }
			else { how = "object"; VI o(M(), e); try { get().push_back(M(), std::move(o)); } catch (...) { o.free(M()); throw; } }
		}
	}
	void pushown(u64 i, std::string& how) override {
		if constexpr (plain) { how = "element"; get().push_back(M(), get().at(M(), i)); }
		else if constexpr (is_vs) { how = "view"; get().push_back(M(), get().at(M(), i).to_view(M())); }
		else if constexpr (is_vv) { how = "vector"; get().push_back(M(), get().at(M(), i).to_vector(M())); }
	}
	void setown(u64 i, u64 n, std::string& how) override {
		if constexpr (is_str) { std::string_view v = get().to_view(M()); how = "part"; get().set_string(M(), self(), v.substr(i, n)); }
		else if constexpr (is_rstr) { std::string_view v = get().to_view(M()); how = "part"; get().set_string(M(), v.substr(i, n)); }
		else if constexpr (plain) { how = "part"; get().assign(M(), get().as_array(M()) + i, n); }
	}
	void append(const Val& v, std::string& how) override {
		if constexpr (plain) { typedef typename Tr<T>::E E; std::vector<E> e; for (int x : v.n) e.push_back(el((E*)0, x)); get().append(M(), e.data(), e.size()); }
		else if constexpr (is_vs || is_vv) { auto e = elems(v.r); try { get().append(M(), e.data(), e.size()); } catch (...) { for (auto& x : e) x.free(M()); throw; } }
	}
	void pop() override { if constexpr (is_cvec) get().pop_back(M()); }
	void resize(u64 n) override { if constexpr (is_cvec) get().resize(M(), n); }
	void reserve(u64 n) override { if constexpr (is_cvec) get().reserve(M(), n); }
	void clear() override { if constexpr (is_cvec) get().clear(M()); }
	void setat(u64 i, const Val& v, std::string& how) override {
		if constexpr (plain || is_rvi) { typedef typename Tr<T>::E E; get().at(M(), i) = el((E*)0, v.n[0]); }
		else if constexpr (is_vs) { Str& s = get().at(M(), i); s.set_string(M(), get().address_at(i), text(v.n)); }
		else if constexpr (is_rvs) get().at(M(), i).set_string(M(), text(v.n));
		else if constexpr (is_vv) get().at(M(), i).assign(M(), std::vector<u32>(v.n.begin(), v.n.end()));
	}
	void pushat(u64 i, int x) override { if constexpr (is_vv) get().at(M(), i).push_back(M(), u32(x)); }
	void release() override { if constexpr (!is_str) get().free(M()); }
	void destroy() override { if (scoped) sc.reset(); else get().free(M()); }
	void move(Base& o, std::string& how) override {
		auto& b = static_cast<Box<T>&>(o);
		if (scoped) { how = "scoped"; *sc = std::move(*b.sc); }
		else if constexpr (is_cvec) { how = "vector"; get() = std::move(b.get()); }
	}
	// ---- what there is
	Nums gstr(u64 a, View& o) { // a C++ string at a, as the guest reads it
		u64 p = w.rd(a), n = w.rd(a + 8), cap = w.rd(a + 16); bool inl = p == a + 16; Nums c;
		if (n > 65536) return {-1};
		for (u64 i = 0; i < n; i++) c.push_back(M().memory.template read<u8>(p + i));
		o.strs.push_back({(i64)n, inl, M().memory.template read<u8>(p + n)});
		if (!inl) o.blocks.push_back({p, std::max(n, cap) + 1});
		return c;
	}
	Nums grstr(u64 a, View& o) {
		u64 p = w.rd(a + offsetof(RStr, ptr)), n = w.rd(a + offsetof(RStr, len)), cap = w.rd(a + offsetof(RStr, capacity)); Nums c;
		if (n > 65536) return {-1};
		for (u64 i = 0; i < n; i++) c.push_back(M().memory.template read<u8>(p + i));
		if (p) o.blocks.push_back({p, std::max(n, cap)}); else if (cap) return {-2};
		return c;
	}
	template <class U> bool gvec(u64 a, u64& b, u64& n, View& o) {
		u64 cap;
		if constexpr (Tr<U>::rust) { b = w.rd(a + offsetof(U, ptr)); n = w.rd(a + offsetof(U, len)); cap = w.rd(a + offsetof(U, capacity)); }
		else { b = w.rd(a); n = w.rd(a + 8) - b; cap = w.rd(a + 16) - b; if (n % sizeof(typename Tr<U>::E) || cap % sizeof(typename Tr<U>::E)) return false; n /= sizeof(typename Tr<U>::E); cap /= sizeof(typename Tr<U>::E); }
		if (n > 65536 || cap > (1 << 26)) return false;
		if (b) o.blocks.push_back({b, cap * sizeof(typename Tr<U>::E)});
		if constexpr (std::is_same_v<U, T>) o.cap = cap;
		return true;
	}
	void guest(View& o) {
		u64 a = self();
		if constexpr (is_str) o.guest.n = gstr(a, o); else if constexpr (is_rstr) o.guest.n = grstr(a, o);
		else { u64 b, n; if (!gvec<T>(a, b, n, o)) { o.guest.bad = true; return; }
			for (u64 i = 0; i < n; i++) { u64 e = b + i * sizeof(typename Tr<T>::E);
				if constexpr (is_vs) o.guest.r.push_back(gstr(e, o)); else if constexpr (is_rvs) o.guest.r.push_back(grstr(e, o));
				else if constexpr (is_vv) { u64 c, k; if (!gvec<VI>(e, c, k, o)) { o.guest.bad = true; return; } Nums x; for (u64 j = 0; j < k; j++) x.push_back(M().memory.template read<u32>(c + 4 * j)); o.guest.r.push_back(x); }
				else if constexpr (std::is_same_v<T, VQ>) o.guest.n.push_back(un(Quad{w.rd(e), (u32)w.rd(e + 8)}));
				else o.guest.n.push_back(M().memory.template read<u32>(e)); } }
	}
	template <class S> Nums htext(const S& s) { std::string t = s.to_string(M()); if (t != s.to_view(M()) || t.size() != s.size() || s.empty() != t.empty()) return {-3};
		if (t.size() > 15) { bool refused = false; try { s.to_string(M(), t.size() - 1); } catch (const std::exception&) { refused = true; } if (!refused || s.to_string(M(), t.size()) != t) return {-4}; } return nums(t); }
	template <class V> Nums hvec(V& v) { Nums a; for (auto& x : v.to_vector(M())) a.push_back(un(x)); Nums b; for (size_t i = 0; i < v.size(); i++) b.push_back(un(v.at(M(), i)));
		Nums c; auto* p = v.as_array(M()); for (size_t i = 0; i < v.size(); i++) c.push_back(un(p[i])); bool out = false; try { v.at(M(), v.size()); } catch (const std::out_of_range&) { out = true; }
		return a == b && b == c && out && v.empty() == a.empty() ? a : Nums{-5}; }
	void host(View& o) {
		T& t = get(); const Machine& cm = M(); (void)cm;
		if constexpr (Tr<T>::flat) o.host.n = htext(t);
		else if constexpr (plain) { o.host.n = hvec(t); Nums a; for (auto it = t.begin(M()); it != t.end(M()); ++it) a.push_back(un(*it)); if (a != o.host.n) o.host.bad = true; for (size_t i = 0; i < t.size(); i++) if (t.address_at(i) != t.data() + i * sizeof(typename Tr<T>::E)) o.host.bad = true; if (o.cap != (i64)t.capacity()) o.host.bad = true; }
		else if constexpr (is_rvi) { o.host.n = hvec(t); if (o.cap != (i64)t.capacity_value()) o.host.bad = true; }
		else { const T& ct = t; if (t.size()) { bool lim = false; try { ct.as_array(cm, t.size() * sizeof(typename Tr<T>::E) - 1); } catch (const std::exception&) { lim = true; } if (!lim) o.host.bad = true; }
			if constexpr (is_vs) { for (auto& s : t.to_string_vector(M())) o.host.r.push_back(nums(s)); for (size_t i = 0; i < t.size(); i++) if (htext(ct.at(M(), i)) != o.host.r[i]) o.host.bad = true; if (o.host.r.size() != t.size()) o.host.bad = true; }
			else for (size_t i = 0; i < t.size(); i++) { if constexpr (is_vv) o.host.r.push_back(hvec(t.at(M(), i))); else o.host.r.push_back(htext(t.at(M(), i))); } }
	}
	View view() override {
		View o; o.null = null(); if (o.null) return o;
		if (scoped) { o.blocks.push_back({self(), sizeof(T)}); if ((void*)&get() != (void*)M().memory.template memarray<u8>(self(), sizeof(T))) o.host.bad = true; }
		try { guest(o); } catch (const MachineException&) { o.guest.bad = true; }
		try { host(o); } catch (const std::exception&) { o.host.bad = true; }
		return o;
	}
};
static Base* box(World& w, const std::string& k, bool scoped) {
	if (k == "str") return new Box<Str>(w, scoped);
	if (k == "rstr") return new Box<RStr>(w, scoped);
	if (k == "vi") return new Box<VI>(w, scoped);
	if (k == "vq") return new Box<VQ>(w, scoped);
	if (k == "vs") return new Box<VS>(w, scoped);
	if (k == "vv") return new Box<VV>(w, scoped);
	if (k == "rvi") return new Box<RVI>(w, scoped);
	return new Box<RVS>(w, scoped);
}
static bool nested(const std::string& k) { return k == "vs" || k == "vv" || k == "rvs"; }
static bool flat(const std::string& k) { return k == "str" || k == "rstr"; }
static bool cvec(const std::string& k) { return k == "vi" || k == "vq" || k == "vs" || k == "vv"; }

struct Op { std::string op; int s = 0, t = 0; std::string k; Val val; u64 i = 0, n = 0; int y = 0; bool scoped = false; };
struct Sim {
	Rng& r; World w; std::map<int, std::unique_ptr<Base>> objs; std::string path; u64 ops = 0, refused = 0, raw0 = 0;
	explicit Sim(Rng& rr) : r(rr), w(rr) {}
	~Sim() { for (auto& o : objs) if (!o.second->null()) { try { o.second->destroy(); } catch (...) {} } }
	void start(u64 heap) {
		alarm(30); MachineOptions opt; opt.use_shared_execute_segments = false;
		w.m = std::make_unique<Machine>(std::string_view(), opt); w.m->memory.allocate_custom_arena(1 << 20, 0x1000, 0x2000);
		raw0 = 0x4000; w.base = 0x10000 + 16 * r.below(64); w.size = heap; for (u64 a = 0x2000; a < 0x10000 + heap + 2048; a += 8) w.m->memory.write<u64>(a, r.next());
		w.m->setup_accelerated_heap(w.base, w.size);
		Op o; o.op = "start"; record(o, "", true, 0);
	}
	static void jval(Out& o, const char* k, const Val& v, bool nest) {
		o.karr(k);
		if (nest) for (auto& x : v.r) { o.arr(); for (int c : x) o.num(c); o.end(); } else for (int c : v.n) o.num(c);
		o.end();
	}
	void record(const Op& op, const std::string& how, bool ok, u64 room) {
		Out o; o.obj(); o.kstr("op", op.op); o.kstr("how", how); o.kbool("ok", ok); o.knum("s", op.s); o.knum("t", op.t); o.kstr("k", op.k); o.kbool("scoped", op.scoped);
		o.knum("i", std::min<u64>(op.i, 1 << 30)); o.knum("n", std::min<u64>(op.n, 1 << 28)); o.knum("y", op.y);
		bool nest = nested(op.k); jval(o, "val", op.val, nest && (op.op == "new" || op.op == "set" || op.op == "append"));
		if (nest) jval(o, "x", op.val, false); else o.knum("x", op.val.n.empty() ? 0 : op.val.n[0]);
		o.knum("room", room); o.knum("used", w.h().bytes_used()); u64 f = 0; for (auto& x : w.filler) f += x.second; o.knum("filler", f);
		o.karr("objs");
		for (auto& [s, b] : objs) { View v = b->view(); o.obj(); o.knum("s", s); o.kstr("k", b->kind()); o.kbool("null", v.null); jval(o, "host", v.host, b->nested()); jval(o, "guest", v.guest, b->nested()); o.knum("cap", v.cap); o.kbool("hbad", v.host.bad); o.kbool("gbad", v.guest.bad);
			o.karr("blocks"); for (auto& x : v.blocks) { o.arr(); bool in = x.at >= w.base && x.at < w.base + w.size; o.num(in ? x.at - w.base : 0); o.num(in ? w.h().size(x.at) : 0); o.num(std::min<u64>(x.need, 1 << 30)); o.end(); } o.end();
			o.karr("strs"); for (auto& x : v.strs) { o.obj(); o.knum("len", x[0]); o.kbool("inl", x[1]); o.knum("nul", x[2]); o.eobj(); } o.end(); o.eobj(); }
		o.end(); o.kstr("path", path.size() > 600 ? path.substr(path.size() - 600) : path); o.eobj(); emit(o);
	}
	void fill(u64 leave) { while (true) { u64 rm = w.room(); if (rm <= leave || rm < 16) break; u64 want = rm - (leave & ~15ull); if (!want) break; u64 p = w.h().malloc(want); if (!p) break; w.filler[p] = w.h().size(p); } }
	void note(const std::string& what, u64 leave) {
		g_now = what + " after " + path; path += what + std::to_string(leave) + ";";
		if (what == "fill") fill(leave); else { for (auto& x : w.filler) w.h().free(x.first); w.filler.clear(); }
		Op o; o.op = "note"; record(o, what, true, 0);
	}
	bool step(Op op) {
		std::string how; bool ok = true; u64 room = w.room(); Base* b = objs.count(op.s) ? objs[op.s].get() : nullptr; if (b) { op.k = b->kind(); op.scoped = b->scoped; }
		std::string lens; if (flat(op.k)) lens = std::to_string(op.val.n.size()); else for (auto& x : op.val.r) lens += std::to_string(x.size()) + ","; if (!nested(op.k) && !flat(op.k)) lens = std::to_string(op.val.n.size());
		std::string d = op.op + (op.scoped ? "*" : "") + op.k + std::to_string(op.s) + "(" + (op.op == "move" ? std::to_string(op.t) : op.op == "new" || op.op == "set" || op.op == "append" ? lens : std::to_string(op.i) + "," + std::to_string(op.n ? op.n : op.val.n.size())) + ");";
		g_now = d + " after " + (path.size() > 400 ? path.substr(path.size() - 400) : path); path += d;
		std::unique_ptr<Base> fresh;
		try {
			if (op.op == "new") { fresh.reset(box(w, op.k, op.scoped)); fresh->at = raw0 + 64 * op.s; fresh->make(op.val, how); objs[op.s] = std::move(fresh); }
			else if (op.op == "destroy") { b->destroy(); objs.erase(op.s); }
			else if (op.op == "move") b->move(*objs[op.t], how);
			else if (op.op == "set") b->set(op.val, how); else if (op.op == "push") b->push(op.val, how);
			else if (op.op == "pushown") b->pushown(op.i, how); else if (op.op == "setown") b->setown(op.i, op.n, how);
			else if (op.op == "append") b->append(op.val, how); else if (op.op == "pop") b->pop(); else if (op.op == "clear") b->clear(); else if (op.op == "free") b->release();
			else if (op.op == "resize") b->resize(op.n); else if (op.op == "reserve") b->reserve(op.n);
			else if (op.op == "setat") b->setat(op.i, op.val, how); else if (op.op == "pushat") b->pushat(op.i, op.y);
		} catch (const MachineException&) { ok = false; } catch (const std::exception&) { ok = false; }
		if (!ok) { path += "!"; refused++; if (op.op == "destroy") objs.erase(op.s); }
		record(op, how, ok, room); ops++; return ok;
	}
	Nums content(u64 n, bool chars) { Nums v; bool zeros = r.chance(1, 12); for (u64 i = 0; i < n; i++) v.push_back(zeros ? 0 : chars ? (r.chance(1, 20) ? 0 : 1 + r.below(255)) : r.below(1000000)); return v; }
	u64 len() { switch (r.below(8)) { case 0: return 0; case 1: return 15; case 2: return 16; case 3: return 14 + r.below(4); case 4: return 30 + r.below(40); default: return r.below(20); } }
	Nums elem(const std::string& k) { if (k == "vs" || k == "rvs") return content(len(), true); return content(r.below(6), false); }
	Val value(const std::string& k) { Val v; if (flat(k)) v.n = content(len(), true); else { u64 n = r.chance(1, 6) ? 0 : r.below(r.chance(1, 5) ? 12 : 5); if (nested(k)) for (u64 i = 0; i < n; i++) v.r.push_back(elem(k)); else v.n = content(n, false); } return v; }
};
static Nums of_len(u64 n, Rng& r) { Nums v; for (u64 i = 0; i < n; i++) v.push_back(1 + r.below(255)); return v; }
int main(int argc, char** argv)
{
	common_init(arg(argc, argv, "out", ""));
	u64 count = argn(argc, argv, "count", 20), per = argn(argc, argv, "per", 60), seed = argn(argc, argv, "seed", 1), shard = argn(argc, argv, "shard", 0), of = argn(argc, argv, "of", 8), max = argn(argc, argv, "max", 1 << 30);
	Rng r(seed * 1237 + shard); u64 total = 0, hist = 0, refused = 0;
	const char* pf = arg(argc, argv, "paths", nullptr);
	if (pf) {
		std::ifstream f(pf); std::string line; u64 k = 0; if (!f) return 3;
		while (std::getline(f, line) && hist < max) {
			if (k++ % of != shard || line.empty()) continue;
			std::vector<std::map<std::string, std::string>> ops; std::stringstream ls(line); std::string x;
			while (std::getline(ls, x, ';')) { std::stringstream ws(x); std::map<std::string, std::string> mp; std::string t; ws >> t; mp["op"] = t; while (ws >> t) { auto q = t.find('='); mp[t.substr(0, q)] = t.substr(q + 1); } ops.push_back(mp); }
			Sim s(r); s.start(4096); hist++; std::map<int, std::string> kinds; bool dead = false;
			for (auto& o : ops) {
				if (o["op"] == "fill" || o["op"] == "drain") { s.note(o["op"], 48 * r.below(3)); continue; }
				Op p; p.op = o["op"]; p.s = atoi(o["s"].c_str()); p.t = atoi(o["t"].c_str()); p.i = strtoull(o["i"].c_str(), nullptr, 0); p.scoped = true;
				if (p.op == "new") { kinds[p.s] = o["k"]; p.k = kinds[p.s]; }
				std::string kk = kinds.count(p.s) ? kinds[p.s] : ""; Nums l; { std::stringstream ns(o["n"]); std::string t; while (std::getline(ns, t, ',')) l.push_back(atoi(t.c_str())); }
				if (p.op == "new" || p.op == "set") { if (kk == "str") p.val.n = of_len(l.empty() ? 0 : l[0], r); else for (int n : l) p.val.r.push_back(of_len(n, r)); }
				else if (p.op == "push" || p.op == "setat") p.val.n = of_len(l[0], r);
				else if (!l.empty()) p.n = l[0];
				// where the heap's limits made the library take another way than the model did, the rest has no meaning
				if (p.op != "new" && !s.objs.count(p.s)) { dead = true; break; }
				if (p.op == "move" && !s.objs.count(p.t)) { dead = true; break; }
				if (p.op != "new" && p.op != "set" && p.op != "destroy" && p.op != "move" && s.objs[p.s]->null()) { dead = true; break; }
				if ((p.op == "setown" && p.i + p.n > s.objs[p.s]->size()) || (p.op == "pushown" && p.i >= s.objs[p.s]->size())) { dead = true; break; }
				s.step(p);
			}
			(void)dead; total += s.ops; refused += s.refused;
		}
	} else for (u64 hi = 0; hi < count; hi++) {
		Sim s(r); s.start(r.chance(1, 3) ? 512 + 16 * r.below(64) : r.chance(1, 2) ? 4096 : 65536); hist++;
		std::vector<std::string> ks = {"str", "rstr", "vi", "vq", "vs", "vs", "vv", "rvi", "rvs"}; std::string fav = r.pick(ks); bool favs = r.chance(1, 2);
		for (u64 j = 0; j < per; j++) {
			if (r.chance(1, 16)) { s.note(s.w.filler.empty() || r.chance(1, 3) ? "fill" : "drain", r.chance(1, 2) ? 0 : 16 * r.below(12)); continue; }
			int slot = 1 + r.below(4);
			if (!s.objs.count(slot)) { Op o; o.op = "new"; o.s = slot; o.k = r.chance(1, 2) ? fav : r.pick(ks); o.scoped = r.chance(1, 4) ? r.chance(1, 2) : favs; o.val = s.value(o.k); s.step(o); continue; }
			Base* b = s.objs[slot].get(); std::string k = b->kind(); Op o; o.s = slot; o.k = k; u64 sz = b->size();
			if (b->null()) { if (r.chance(1, 4)) o.op = "destroy"; else if (r.chance(1, 4)) { o.op = "move"; } else { o.op = "set"; o.val = s.value(k); } }
			else if (flat(k)) { switch (r.below(8)) { case 0: o.op = "destroy"; break; case 1: o.op = "move"; break; case 2: case 3: o.op = "setown"; o.i = r.below(sz + 1); o.n = r.below(sz - o.i + 1); break; case 4: if (k == "rstr") { o.op = "free"; break; } [[fallthrough]]; default: o.op = "set"; o.val = s.value(k); } }
			else if (cvec(k)) { switch (r.below(24)) {
				case 0: o.op = "destroy"; break; case 1: case 2: o.op = "move"; break; case 3: case 4: o.op = "set"; o.val = s.value(k); break;
				case 5: case 6: case 7: case 8: o.op = "push"; o.val.n = nested(k) ? s.elem(k) : s.content(1, false); break;
				case 9: if (sz) { o.op = "pushown"; o.i = r.below(sz); } else o.op = "pop"; break;
				case 10: if ((k == "vi" || k == "vq") && sz) { o.op = "setown"; o.i = r.below(sz); o.n = 1 + r.below(sz - o.i); } else { o.op = "append"; o.val = s.value(k); } break;
				case 11: case 12: o.op = "append"; o.val = s.value(k); break; case 13: case 14: o.op = "pop"; break;
				case 15: case 16: o.op = "resize"; o.n = r.chance(1, 10) ? (1ull << (28 + r.below(36))) + r.below(3) : r.chance(1, 2) ? r.below(sz + 1) : sz + r.below(6); break;
				case 17: case 18: o.op = "reserve"; o.n = r.chance(1, 8) ? (1ull << (28 + r.below(36))) + r.below(3) : sz + r.below(12); break;
				case 19: o.op = r.chance(1, 2) ? "clear" : "free"; break;
				case 20: if (k == "vv") { o.op = "pushat"; o.i = r.below(sz + 1); o.y = r.below(1000); break; } [[fallthrough]];
				default: o.op = "setat"; o.i = r.below(sz + 1); if (r.chance(1, 12)) o.i = sz + r.below(1 << 20); o.val.n = nested(k) ? s.elem(k) : s.content(1, false); } }
			else switch (r.below(6)) { case 0: o.op = "destroy"; break; case 1: o.op = "move"; break; case 2: o.op = "free"; break; case 3: o.op = "set"; o.val = s.value(k); break; default: o.op = "setat"; o.i = r.below(sz + 1); o.val.n = nested(k) ? s.elem(k) : s.content(1, false); }
			if (o.op == "move") { // another container of the same kind and place
				std::vector<int> c; for (auto& [t, x] : s.objs) if ((t != slot || r.chance(1, 4)) && x->scoped == b->scoped && !strcmp(x->kind(), b->kind()) && (b->scoped || cvec(k))) c.push_back(t);
				if (c.empty()) continue; o.t = r.pick(c);
			}
			s.step(o);
			if (s.objs.size() > 60) break;
		}
		while (!s.objs.empty()) { Op o; o.op = "destroy"; auto it = s.objs.begin(); std::advance(it, r.below(s.objs.size())); o.s = it->first; s.step(o); }
		s.note("drain", 0); total += s.ops; refused += s.refused;
	}
	printf("DRIVER histories=%lu\nDRIVER operations=%lu\nDRIVER refused=%lu\n", hist, total, refused);
	fclose(g_out);
}
