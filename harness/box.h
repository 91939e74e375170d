// Type-erased scanners of every kind: construction, value operations, saving, loading, mapping and a fingerprint
// of the complete behaviour.  Used by the harnesses of serialization and of value semantics.
#pragma once
#include "kinds.h"
#include <pire/extra.h>
#include <memory>

namespace box {

using Pire::Fsm; using Pire::CapturingScanner; using Pire::SlowCapturingScanner; using Pire::CountingScanner;
using Pire::AdvancedCountingScanner; using Pire::NoGlueLimitCountingScanner;
using namespace kinds;

// ---- memory blocks that end at an unreadable page ---------------------------------------------------------------
struct Block {
	char* base; size_t total;
	char* p; size_t n;
	/// the bytes lie right before an unreadable page, except for the padding that aligning their start takes
	Block(const std::string& img, size_t align = 8, size_t off = 0) : n(img.size()) {
		size_t pg = 4096, need = img.size() + align + 64;
		total = (need + pg - 1) / pg * pg + pg;
		base = (char*)mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		char* end = base + total - pg;
		memset(base, 0xEE, end - base);
		p = (char*)(((uintptr_t)(end - img.size() - off)) & ~(uintptr_t)(align - 1)) + off;
		memcpy(p, img.data(), img.size());
		mprotect(base, total - pg, PROT_READ);
		mprotect(end, pg, PROT_NONE);
	}
	~Block() { munmap(base, total); }
	Block(const Block&) = delete;
};
typedef std::shared_ptr<Block> BlockP;

// ---- fingerprints -----------------------------------------------------------------------------------------------
struct Hash {
	uint64_t a = 1469598103934665603ull, b = 0x9e3779b97f4a7c15ull;
	void add(uint64_t x) {
		a = (a ^ x) * 1099511628211ull; a ^= a >> 29;
		b += x * 0xff51afd7ed558ccdull; b ^= b >> 32; b *= 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
	}
	std::string str() const { return std::string((const char*)&a, 8) + std::string((const char*)&b, 8); }
};

extern bool fullPrint;   // everything, or a few texts only
inline const std::vector<std::string>& texts() {
	static const std::vector<std::string> few{"", "a", "ab", "abbcab", "caabcabbacb", "xxxxxxxxxxxxxxxxxaxxxxxxxxx"};
	if (!fullPrint) return few;
	static std::vector<std::string> t = [] {
		std::vector<std::string> r{""};
		for (size_t b = 0, n = 0; n < 5; ++n) {
			size_t e = r.size();
			for (; b < e; ++b) for (char c : {'a', 'b', 'c'}) r.push_back(r[b] + c);
		}
		r.push_back("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab");
		r.push_back("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxaxxxxxxxxx");
		r.push_back("\xff\x80 a b\x01zzz abc \xf0 abcabc");
		return r;
	}();
	return t;
}

/// automata: all reachable states by breadth-first search
template<class Sc> void autoPrint(const Sc& sc, Hash& h, bool hf) {
	typedef typename Sc::State St;
	typedef typename mc::StateKey<Sc>::type Key;
	std::map<Key, int> id;
	std::vector<St> q;
	auto num = [&](const St& s) {
		auto r = id.insert({mc::StateKey<Sc>::get(sc, s), (int)q.size()});
		if (r.second) q.push_back(s);
		return r.first->second;
	};
	St s0; sc.Initialize(s0); num(s0);
	for (size_t i = 0; i < q.size(); ++i) {
		++mc::ctx().st.states;
		h.add(sc.Final(q[i]) ? 2 : 3);
		h.add(sc.Dead(q[i]) ? 5 : 7);
		if (!hf) { for (auto x : accepted(sc, q[i])) h.add(x + 11); h.add(~0ull); }
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			St s = q[i];
			Pire::Step(sc, s, (Pire::Char)l);
			++mc::ctx().st.transitions;
			h.add(num(s));
		}
		if (q.size() > 100000) throw mc::Fail("too many states");
	}
	h.add(q.size());
}
template<class Sc, class F> void textPrint(const Sc& sc, Hash& h, F each) {
	for (auto& t : texts())
		for (int marks = 0; marks < 2; ++marks) {
			typename Sc::State st;
			sc.Initialize(st);
			if (marks) Pire::Step(sc, st, Pire::BeginMark);
			Pire::Run(sc, st, t.data(), t.data() + t.size());
			if (marks) Pire::Step(sc, st, Pire::EndMark);
			++mc::ctx().st.transitions;
			each(st);
		}
}

template<class Sc> struct Print {   // multi-pattern kinds, simple, slow
	static void run(const Sc& sc, Hash& h) {
		h.add(sc.Empty()); h.add(sc.RegexpsCount()); h.add(sc.Size());
		if (fullPrint) autoPrint(sc, h, IsHF<Sc>::v);
		if (IsHF<Sc>::v) textPrint(sc, h, [&](typename Sc::State& st) { for (auto x : accepted(sc, st)) h.add(x); h.add(~0ull); });
		else textPrint(sc, h, [&](typename Sc::State& st) { h.add(sc.Final(st)); });
	}
};
template<class Sc> struct CountPrint {
	static void run(const Sc& sc, Hash& h) {
		h.add(sc.Empty()); h.add(sc.RegexpsCount()); h.add(sc.Size()); h.add(sc.LettersCount());
		textPrint(sc, h, [&](typename Sc::State& st) {
			for (size_t i = 0; i < sc.RegexpsCount(); ++i) h.add(st.Result(i));
			h.add(~0ull); h.add(sc.Final(st)); h.add(sc.StateIndex(st));
		});
	}
};
template<> struct Print<CountingScanner> : CountPrint<CountingScanner> {};
template<> struct Print<AdvancedCountingScanner> : CountPrint<AdvancedCountingScanner> {};
template<> struct Print<NoGlueLimitCountingScanner> : CountPrint<NoGlueLimitCountingScanner> {};
template<> struct Print<CapturingScanner> {
	static void run(const CapturingScanner& sc, Hash& h) {
		h.add(sc.Empty()); h.add(sc.RegexpsCount()); h.add(sc.Size()); h.add(sc.LettersCount());
		textPrint(sc, h, [&](CapturingScanner::State& st) {
			h.add(sc.Final(st)); h.add(st.Captured()); h.add(st.Begin()); h.add(st.End()); h.add(sc.StateIndex(st));
		});
	}
};
template<> struct Print<SlowCapturingScanner> {
	static void run(const SlowCapturingScanner& sc, Hash& h) {
		h.add(sc.Empty()); h.add(sc.RegexpsCount()); h.add(sc.Size());
		for (auto& t : texts()) {
			if (fullPrint && t.size() == 5) continue;
			SlowCapturingScanner::State st;
			sc.Initialize(st);
			for (unsigned char c : t) Pire::Step(sc, st, c);
			SlowCapturingScanner::SingleState f;
			bool ok = sc.GetCapture(st, f);
			++mc::ctx().st.transitions;
			h.add(ok); h.add(st.IsMatched()); h.add(st.GetSize());
			if (ok) { h.add(f.Begin()); h.add(f.End()); h.add(f.GetNum()); }
		}
	}
};
template<class Sc> std::string print(const Sc& sc) { Hash h; Print<Sc>::run(sc, h); return h.str(); }

// ---- type-erased objects ----------------------------------------------------------------------------------------
extern unsigned char fillByte;
struct Obj;
typedef std::shared_ptr<Obj> ObjP;
struct Obj {
	virtual ~Obj() {}
	virtual std::string image() const = 0;
	virtual std::string behave() const = 0;
	virtual void load(std::istream& s) = 0;
	virtual const void* map(const void* p, size_t n) = 0;
	virtual ObjP copy() const = 0;
	virtual ObjP move() = 0;
	virtual ObjP fresh() const = 0;          // a default-constructed object of this kind
	virtual void assign(const Obj&) = 0;
	virtual void moveAssign(Obj&) = 0;
	virtual void swap(Obj&) = 0;
	virtual void stdSwap(Obj&) = 0;
	virtual ObjP convert() const = 0;        // to the other relocation kind and back, null if there is none
	virtual bool empty() const = 0;
	std::vector<BlockP> keep;                // mapped memory
	// every object starts out in memory filled with a byte that varies
	static void* operator new(size_t n) { void* p = malloc(n); fillByte += 0x35; memset(p, fillByte, n); return p; }
	static void operator delete(void* p) { free(p); }
};

template<class Sc> struct Conv { static Sc* there(const Sc&) { return nullptr; } };
#define BOX_CONV(A, B) \
	template<> struct Conv<A> { static A* there(const A& x) { B b(x); A c(b); return new A(c); } }; \
	template<> struct Conv<B> { static B* there(const B& x) { A b(x); B c(b); return new B(c); } };
BOX_CONV(Scanner, NonrelocScanner)
BOX_CONV(ScannerNoMask, NonrelocScannerNoMask)
BOX_CONV(HalfFinalScanner, NonrelocHalfFinalScanner)
BOX_CONV(HalfFinalScannerNoMask, NonrelocHalfFinalScannerNoMask)

template<class Sc> struct Mapper { static const void* map(Sc& s, const void* p, size_t n) { return s.Mmap(p, n); } static const bool can = true; };
#define BOX_NOMAP(K) template<> struct Mapper<K> { static const void* map(K&, const void*, size_t) { return nullptr; } static const bool can = false; };
BOX_NOMAP(NonrelocScanner) BOX_NOMAP(NonrelocScannerNoMask) BOX_NOMAP(NonrelocHalfFinalScanner) BOX_NOMAP(NonrelocHalfFinalScannerNoMask)

template<class Sc> struct Swapper { static void swap(Sc& a, Sc& b) { a.Swap(b); } };

template<class Sc> struct ObjT : Obj {
	Sc sc;
	ObjT() {}
	ObjT(const Sc& s) : sc(s) {}
	struct MoveTag {};
	ObjT(Sc& s, MoveTag) : sc(std::move(s)) {}
	std::string image() const { return kinds::image(sc); }
	std::string behave() const { return print(sc); }
	void load(std::istream& s) { sc.Load(&s); }
	const void* map(const void* p, size_t n) { return Mapper<Sc>::map(sc, p, n); }
	ObjP copy() const { auto r = new ObjT(sc); r->keep = keep; return ObjP(r); }
	ObjP move() { auto r = new ObjT(sc, MoveTag()); r->keep = keep; return ObjP(r); }
	ObjP fresh() const { return ObjP(new ObjT()); }
	const ObjT& cast(const Obj& o) const { return dynamic_cast<const ObjT&>(o); }
	void assign(const Obj& o) { sc = cast(o).sc; auto k = o.keep; keep.insert(keep.end(), k.begin(), k.end()); }
	void moveAssign(Obj& o) {
		sc = std::move(dynamic_cast<ObjT&>(o).sc);
		auto k = o.keep, k2 = keep;
		keep.insert(keep.end(), k.begin(), k.end()); o.keep.insert(o.keep.end(), k2.begin(), k2.end());
	}
	void swap(Obj& o) {
		Swapper<Sc>::swap(sc, dynamic_cast<ObjT&>(o).sc);
		auto k = o.keep, k2 = keep;
		keep.insert(keep.end(), k.begin(), k.end()); o.keep.insert(o.keep.end(), k2.begin(), k2.end());
	}
	void stdSwap(Obj& o) {
		using std::swap;
		swap(sc, dynamic_cast<ObjT&>(o).sc);
		auto k = o.keep, k2 = keep;
		keep.insert(keep.end(), k.begin(), k.end()); o.keep.insert(o.keep.end(), k2.begin(), k2.end());
	}
	ObjP convert() const {
		std::unique_ptr<Sc> c(Conv<Sc>::there(sc));
		if (!c) return nullptr;
		auto r = new ObjT(*c); r->keep = keep;
		return ObjP(r);
	}
	bool empty() const { return sc.Empty(); }
};

// ---- pools ------------------------------------------------------------------------------------------------------
inline Fsm fsm(const std::string& pat) { return Pire::Lexer(pat).Parse(); }
inline Fsm surr(const std::string& pat) { return Pire::Lexer(pat).Parse().Surround(); }
inline Fsm capFsm(const std::string& pat, int n) {
	Pire::Lexer lx(pat);
	lx.AddFeature(Pire::Features::Capture(n));
	return lx.Parse();
}

struct Made { std::string name; ObjP obj; std::string behave, image; };

template<class Sc> Sc build(const Fsm& f) { return compile<Sc>(f); }

struct Kind {
	std::string name;
	int type;                      // the kind recorded in the header
	bool canMap, multi;
	size_t align;                  // the image's length is a multiple of this
	ObjP proto;
	std::vector<Made> pool;
};

template<class Sc> void addPool(Kind& k, const std::string& n, const Sc& sc) {
	Made m; m.name = n; m.obj = std::make_shared<ObjT<Sc>>(sc);
	m.obj = m.obj->copy();
	m.behave = m.obj->behave(); m.image = m.obj->image();
	k.pool.push_back(m);
}
template<class Sc> Kind mk(const char* name, int type, bool multi, size_t align = 8) {
	Kind k; k.name = name; k.type = type; k.canMap = Mapper<Sc>::can; k.multi = multi; k.align = align;
	k.proto = ObjP(new ObjT<Sc>());
	return k;
}

template<class Sc> Kind multiKind(const char* name) {
	Kind k = mk<Sc>(name, 1, true);
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "/ab*/", build<Sc>(fsm("ab*")));
	addPool<Sc>(k, "false", build<Sc>(Fsm::MakeFalse()));
	addPool<Sc>(k, "glued", Sc::Glue(Sc::Glue(build<Sc>(surr("a+b")), build<Sc>(surr("ca|b"))), build<Sc>(fsm("^.*c.b$"))));
	addPool<Sc>(k, "/[^x]*a/ surrounded", build<Sc>(surr("[^x]{3}a")));
	return k;
}
template<class Sc> Kind hfKind(const char* name) {
	Kind k = mk<Sc>(name, 1, true);
	auto counter = [](const std::string& p, int mode) {
		Pire::HalfFinalFsm h(fsm(p));
		if (mode == 0) h.MakeGreedyCounter(); else if (mode == 1) h.MakeNonGreedyCounter(); else h.MakeNonGreedyCounter(false);
		return Sc(h);
	};
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "/ab*/", Sc(fsm("ab*")));
	addPool<Sc>(k, "greedy /ab*/", counter("ab*", 0));
	addPool<Sc>(k, "non-greedy /ab|b/", counter("ab|b", 1));
	addPool<Sc>(k, "glued", Sc::Glue(Sc::Glue(counter("a+", 0), counter("a+b?", 1)), Sc(fsm("a|bc"))));
	return k;
}
template<class Sc> Kind plainKind(const char* name, int type) {
	Kind k = mk<Sc>(name, type, false);
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "/ab*/", build<Sc>(fsm("ab*")));
	addPool<Sc>(k, "false", build<Sc>(Fsm::MakeFalse()));
	addPool<Sc>(k, "surrounded", build<Sc>(surr("a.b|c[^a]{2}")));
	addPool<Sc>(k, "any", build<Sc>(fsm(".*")));
	return k;
}
template<class Sc> Kind countKind(const char* name, int type, size_t align) {
	Kind k = mk<Sc>(name, type, true, align);
	auto c = [](const char* re, const char* sep) { return Sc(fsm(re), fsm(sep)); };
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "a sep .*", c("a", ".*"));
	addPool<Sc>(k, "ab* sep c", c("ab*", "c"));
	addPool<Sc>(k, "glued", Sc::Glue(Sc::Glue(c("a+", ".*"), c("b", "c?")), c("ab", "")));
	addPool<Sc>(k, "glued twice", Sc::Glue(Sc::Glue(c("a", "b"), c("b", "a")), Sc::Glue(c("c", ".*"), c("[ac]", "b*"))));
	return k;
}
inline Kind capKind() {
	typedef CapturingScanner Sc;
	Kind k = mk<Sc>("CapturingScanner", 4, false);
	auto c = [](const std::string& p, int n) { Fsm f = capFsm(p, n).Surround(); return Sc(f); };
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "a(b*)c", c("a(b*)c", 1));
	addPool<Sc>(k, "a(b)(c+)", c("a(b)(c+)", 2));
	addPool<Sc>(k, "(.)c", c("([ab])c", 1));
	return k;
}
inline Kind slowCapKind() {
	typedef SlowCapturingScanner Sc;
	Kind k = mk<Sc>("SlowCapturingScanner", 3, false);
	auto c = [](const std::string& p, int n) { Fsm f = capFsm(p, n); return Sc(f); };
	addPool<Sc>(k, "default", Sc());
	addPool<Sc>(k, "a(b*)c", c("a(b*)c", 1));
	addPool<Sc>(k, ".*?(b+)c?", c(".*?(b+)c?", 1));
	addPool<Sc>(k, "(a|ab)(c|bc)", c("(a|ab)(c|bc|b)", 2));
	return k;
}

inline std::vector<Kind> all() {
	std::vector<Kind> r;
	r.push_back(multiKind<Scanner>("Scanner"));
	r.push_back(multiKind<NonrelocScanner>("NonrelocScanner"));
	r.push_back(multiKind<ScannerNoMask>("ScannerNoMask"));
	r.push_back(multiKind<NonrelocScannerNoMask>("NonrelocScannerNoMask"));
	r.push_back(hfKind<HalfFinalScanner>("HalfFinalScanner"));
	r.push_back(hfKind<NonrelocHalfFinalScanner>("NonrelocHalfFinalScanner"));
	r.push_back(hfKind<HalfFinalScannerNoMask>("HalfFinalScannerNoMask"));
	r.push_back(hfKind<NonrelocHalfFinalScannerNoMask>("NonrelocHalfFinalScannerNoMask"));
	r.push_back(plainKind<SimpleScanner>("SimpleScanner", 2));
	r.push_back(plainKind<SlowScanner>("SlowScanner", 3));
	r.push_back(countKind<CountingScanner>("CountingScanner", 4, 8));
	r.push_back(countKind<AdvancedCountingScanner>("AdvancedCountingScanner", 4, 8));
	r.push_back(countKind<NoGlueLimitCountingScanner>("NoGlueLimitCountingScanner", 5, 4));
	r.push_back(capKind());
	r.push_back(slowCapKind());
	return r;
}

} // namespace box
