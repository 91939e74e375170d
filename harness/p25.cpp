// P25: building is reproducible: the same construction gives the same automaton and the same saved bytes, whatever
// the process did before and whatever its memory contained.
//
// Every construction is carried out in every environment of a set: fresh memory handed out at rising or falling
// addresses or by the system allocator, filled with different bytes (heap and stack), after nothing, after other
// constructions or after a failed parse. The images saved by every scanner kind must be the same to the byte.
#include "kinds.h"
#include "fsmexpr.h"
#include "repat.h"
#include <pire/extra.h>
#include <pire/easy.h>
#include <malloc.h>
#include <new>
using namespace Pire;

// ---- environments -------------------------------------------------------------------------------------------------
namespace env {
	enum Mode { SYSTEM, UP, DOWN };
	static Mode mode = SYSTEM;
	static unsigned char fill = 0;
	static const size_t SIZE = 256u << 20;
	static char* arena = nullptr;
	static size_t lo = 0, hi = SIZE;
	static void* get(size_t n) {
		size_t m = (n + 15) / 16 * 16;
		if (!m) m = 16;
		if (mode == SYSTEM || !arena || hi - lo < m) {
			void* p = malloc(m);
			if (!p) throw std::bad_alloc();
			memset(p, fill, m);
			return p;
		}
		char* p;
		if (mode == UP) { p = arena + lo; lo += m; }
		else { hi -= m; p = arena + hi; }
		memset(p, fill, m);
		return p;
	}
	static void put(void* p) {
		if (arena && (char*)p >= arena && (char*)p < arena + SIZE) return;
		free(p);
	}
	__attribute__((noinline)) static void stack() {
		volatile char buf[48 << 10];
		for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (char)fill;
	}
}
void* operator new(size_t n) { return env::get(n); }
void* operator new[](size_t n) { return env::get(n); }
void operator delete(void* p) noexcept { env::put(p); }
void operator delete[](void* p) noexcept { env::put(p); }
void operator delete(void* p, size_t) noexcept { env::put(p); }
void operator delete[](void* p, size_t) noexcept { env::put(p); }

struct Env { env::Mode mode; int fill; int history; const char* name; };
static const Env ENVS[] = {
	{env::SYSTEM, 0x00, 0, "system memory filled with 00"},
	{env::UP, 0xFF, 0, "rising addresses, memory filled with FF"},
	{env::DOWN, 0x01, 0, "falling addresses, memory filled with 01"},
	{env::DOWN, 0xA5, 1, "falling addresses, memory filled with A5, after other constructions"},
	{env::SYSTEM, 0x5A, 2, "system memory filled with 5A, after a failed parse"},
};

typedef std::vector<std::pair<const char*, std::string>> Images;

static Fsm pat(const std::string& s) { return Lexer(s).Parse(); }
static void history(int h) {
	if (h == 1) {
		Fsm f = pat("x(y|z)*[^q]{2}"); f.Surround(); f.Compile<Scanner>(); f.Compile<SlowScanner>(); f.Compile<SimpleScanner>();
		CountingScanner(pat("ab"), pat(".*"));
		Fsm g = pat("(ab|ba)+") | pat("c"); g.Complement(); Scanner::Glue(f.Compile<Scanner>(), g.Compile<Scanner>());
	} else if (h == 2) {
		for (const char* p : {"a(b", "[z-a]", "a{3,1}", "\\x{zz}", "(a|b))", "x{2}{3}"}) {
			std::string s(p);
			try { Lexer l(s); l.AddFeature(Features::AndNotSupport()); l.AddFeature(Features::CaseInsensitive()); l.Parse(); } catch (Error&) {}
		}
	}
}

/// carries out a construction in every environment and compares what it yields
static void everywhere(const std::function<void(Images&)>& make) {
	Images first;
	for (size_t e = 0; e < sizeof ENVS / sizeof *ENVS; ++e) {
		const Env& v = ENVS[e];
		Images now;
		now.reserve(128);
		std::string err;
		{
			env::fill = v.fill;
			mallopt(M_PERTURB, v.fill ? v.fill ^ 0xFF : 0);
			history(v.history);
			env::mode = v.mode; env::lo = 0; env::hi = env::SIZE;
			Images inner;
			env::stack();
			try { make(inner); } catch (Error& x) { err = x.what(); }
			env::mode = env::SYSTEM;
			for (auto& x : inner) now.emplace_back(x.first, std::string(x.second.data(), x.second.size()));
			if (!err.empty()) now.emplace_back("error", std::string(err.data(), err.size()));
		}
		err = std::string();
		mallopt(M_PERTURB, 0);
		++mc::ctx().st.transitions;
		if (!e) { first.swap(now); mc::ctx().st.states += first.size(); continue; }
		if (now.size() != first.size()) { mc::violation(std::string(v.name) + ": another number of results"); return; }
		for (size_t i = 0; i < now.size(); ++i)
			if (now[i].second != first[i].second) {
				const std::string &a = first[i].second, &b = now[i].second;
				size_t k = 0;
				while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
				mc::violation(std::string(first[i].first) + ": " + v.name + ": " + (a.size() != b.size() ? std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes" :
					"byte " + std::to_string(k) + " of " + std::to_string(a.size()) + " differs: " + std::to_string((unsigned char)a[k]) + " and " + std::to_string((unsigned char)b[k])));
				return;
			}
		++mc::ctx().st.replays;
	}
	++mc::ctx().st.nontrivial;
}

template<class Sc> static void put(Images& r, const char* name, const Sc& sc) { env::stack(); r.emplace_back(name, kinds::image(sc)); }
template<class Sc> static void kind(Images& r, const char* name, const Fsm& f) {
	env::stack();
	Fsm x(f);
	Sc sc = x.Compile<Sc>();
	put(r, name, sc);
	Sc t;
	t = sc;
	Sc u(t);
	t.Swap(u);
	put(r, name, t);
}
static void dump(Images& r, const char* name, const Fsm& f) {
	std::ostringstream o;
	f.DumpTo(o);
	r.emplace_back(name, o.str());
}
static void allKinds(Images& r, const Fsm& f, bool deep) {
	dump(r, "automaton", f);
	kind<Scanner>(r, "Scanner", f);
	kind<NonrelocScanner>(r, "NonrelocScanner", f);
	kind<ScannerNoMask>(r, "ScannerNoMask", f);
	kind<NonrelocScannerNoMask>(r, "NonrelocScannerNoMask", f);
	kind<SimpleScanner>(r, "SimpleScanner", f);
	kind<SlowScanner>(r, "SlowScanner", f);
	if (!deep) return;
	kind<SlowCapturingScanner>(r, "SlowCapturingScanner", f);
	kind<CapturingScanner>(r, "CapturingScanner", f);
	put(r, "HalfFinalScanner", HalfFinalScanner(f));
	for (int v = 0; v < 6; ++v) {
		Fsm x(f);
		HalfFinalFsm h(x);
		if (v < 2) h.MakeGreedyCounter(v == 0);
		else h.MakeNonGreedyCounter(v & 1, v < 4);
		put(r, "HalfFinalScanner counter", HalfFinalScanner(h));
		put(r, "NonrelocHalfFinalScanner counter", NonrelocHalfFinalScanner(h));
	}
	for (const char* sep : {".*", "b", ""}) {
		Fsm s = pat(sep);
		put(r, "CountingScanner", CountingScanner(f, s));
		put(r, "AdvancedCountingScanner", AdvancedCountingScanner(f, s));
		put(r, "NoGlueLimitCountingScanner", NoGlueLimitCountingScanner(f, s));
	}
	for (size_t d = 1; d <= 2; ++d) {
		Fsm x(f), y(f);
		put(r, "Scanner with a distance", x.Compile<Scanner>(d));
		put(r, "SimpleScanner with a distance", y.Compile<SimpleScanner>(d));
	}
	Fsm c(f); c.Canonize(); dump(r, "canonized automaton", c);
	Fsm d(f); d.RemoveEpsilons(); dump(r, "automaton without empty transitions", d);
	Fsm e(f); e.Complement(); dump(r, "complement", e);
	Fsm g(f); g.Reverse(); g.MakePrefix(); dump(r, "reversed prefixes", g);
	Fsm h(f); h.MakeSuffix(); h.RemoveDeadEnds(); dump(r, "suffixes", h);
	Fsm i(f); i.Determine(); i.Minimize(); i.Unsparse(); dump(r, "unpacked minimal automaton", i);
	std::string t;
	for (size_t s : f.DeadStates()) t += std::to_string(s) + " ";
	r.emplace_back("dead states", t);
}
template<class Sc> static void glued(Images& r, const char* name, const std::vector<Sc>& v) {
	Sc left = v[0], right = v[2];
	left = Sc::Glue(Sc::Glue(v[0], v[1]), v[2]);
	right = Sc::Glue(v[0], Sc::Glue(v[1], v[2]));
	put(r, name, left);
	put(r, name, right);
	put(r, name, Sc::Glue(v[0], v[1], 3));
	put(r, name, Sc::Glue(v[0], Sc()));
	put(r, name, Sc());
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool deep = mc::ctx().thorough;
	{ // everything lazily initialised happens here
		Images w;
		history(1); history(2);
		allKinds(w, pat("a|bc"), true);
		put(w, "", HalfFinalScanner()); put(w, "", CountingScanner()); put(w, "", AdvancedCountingScanner()); put(w, "", NoGlueLimitCountingScanner());
		for (int i = 0; i < 16; ++i) {
			std::string s = "[\\w]a";
			Lexer l(s);
			if (i & 1) l.SetEncoding(Encodings::Utf8());
			if (i & 2) l.AddFeature(Features::CaseInsensitive());
			if (i & 4) l.AddFeature(Features::AndNotSupport());
			if (i & 8) l.AddFeature(Features::GlueSimilarGlyphs());
			l.Parse();
		}
		Regexp("a", UTF8 | I).Matches("a");
	}
	env::arena = (char*)mmap(nullptr, env::SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (env::arena == MAP_FAILED) { perror("mmap"); return 2; }

	// construction programs
	fx::Pool p;
	p.nul = {fx::EPS, fx::FALSE_, fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	p.un = {fx::STAR, fx::NOT, fx::POW0, fx::POW2, fx::POW3, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_STR, fx::ADD_ALTS, fx::ADD_DOT, fx::ADD_EM, fx::SELFCAT, fx::SELFOR, fx::SELFAND};
	p.bin = {fx::CAT, fx::OR, fx::AND};
	p.build(deep ? 4 : 3);
	mc::phase("program", p.nodes.size(), [&](uint64_t i) { return p.text((int)i); },
		[&](uint64_t i) { everywhere([&](Images& r) { env::stack(); allKinds(r, fx::build(p, (int)i), i < p.begin[deep ? 4 : 3]); }); });
	fx::Pool q;
	q.nul = {fx::A, fx::STR, fx::ALTS, fx::EMARK};
	q.un = {fx::STAR, fx::NOT, fx::SURR, fx::ADD_ALTS};
	q.bin = {fx::CAT, fx::OR, fx::AND};
	q.build(deep ? 4 : 3);
	mc::phase("program over changed operands", q.nodes.size() * (fx::REPRS - 1), [&](uint64_t i) { return q.text((int)(i / (fx::REPRS - 1))) + ", operands " + fx::reprname(1 + i % (fx::REPRS - 1)); },
		[&](uint64_t i) { everywhere([&](Images& r) {
			Fsm f = fx::build(q, (int)(i / (fx::REPRS - 1)), 1 + (int)(i % (fx::REPRS - 1)));
			dump(r, "automaton", f); kind<Scanner>(r, "Scanner", f); kind<SlowScanner>(r, "SlowScanner", f);
		}); });

	// patterns under every feature set
	struct F { const char* name; std::vector<std::string> tok; int len; };
	std::vector<F> fam = {
		{"patterns", {"a", "b", "|", "(", ")", "*", ".", "{2,3}", "[^a]", "$"}, deep ? 5 : 3},
		{"characters", {"a", "\xd0\xb6", "K", "\\w", "[a-\xd0\xb6]", "\\x{41}", "&", "~"}, deep ? 3 : 2},
	};
	for (auto& f : fam) {
		refre::Seqs sq(f.tok, f.len);
		bool letters = f.tok.size() == 8;
		mc::phase(f.name, sq.total, [&](uint64_t i) { return refre::show(sq.get(i)); }, [&](uint64_t i) {
			refre::U32 u = sq.get(i);
			everywhere([&](Images& r) {
				for (int o = 0; o < (letters ? 16 : 1); ++o) {
					refre::Opts op; op.utf8 = o & 1; op.icase = o & 2; op.andnot = o & 4; op.glyphs = o & 8;
					try {
						env::stack();
						Fsm x = refre::parsePire(u, op);
						dump(r, "automaton", x);
						kind<Scanner>(r, "Scanner", x);
						if (o < 2) kind<SlowScanner>(r, "SlowScanner", x);
					} catch (Error& e) { r.emplace_back("error", e.what()); }
				}
				for (int n = 1; n <= 2 && !letters; ++n) {
					try {
						Lexer l(u.begin(), u.end());
						l.AddFeature(Features::Capture(n));
						Fsm x = l.Parse();
						Fsm y(x); y.Surround();
						kind<SlowCapturingScanner>(r, "SlowCapturingScanner", y);
						kind<CapturingScanner>(r, "CapturingScanner", y);
					} catch (Error& e) { r.emplace_back("error", e.what()); }
				}
			});
		});
	}

	// gluing
	std::vector<std::string> g{"a", "ab*", "[^b]", ".*", "b|ca", "", "[^a]a", "a{2}$"};
	size_t G = g.size();
	mc::phase("glue", G * G * G, [&](uint64_t i) { return g[i / G / G] + " and " + g[i / G % G] + " and " + g[i % G]; }, [&](uint64_t i) {
		everywhere([&](Images& r) {
			std::vector<Scanner> a; std::vector<NonrelocScannerNoMask> b; std::vector<HalfFinalScanner> c;
			std::vector<CountingScanner> d; std::vector<AdvancedCountingScanner> e; std::vector<NoGlueLimitCountingScanner> n;
			for (size_t k : {i / G / G, i / G % G, i % G}) {
				Fsm f = pat(g[k]);
				Fsm x(f), y(f);
				a.push_back(x.Compile<Scanner>()); b.push_back(y.Compile<NonrelocScannerNoMask>());
				HalfFinalFsm h(f); h.MakeNonGreedyCounter(false, true);
				c.push_back(HalfFinalScanner(h));
				d.emplace_back(f, pat(".*")); e.emplace_back(f, pat("b")); n.emplace_back(f, pat("b"));
			}
			glued(r, "glued Scanner", a); glued(r, "glued NonrelocScannerNoMask", b); glued(r, "glued HalfFinalScanner", c);
			glued(r, "glued CountingScanner", d); glued(r, "glued AdvancedCountingScanner", e); glued(r, "glued NoGlueLimitCountingScanner", n);
		});
	});
	return mc::finish();
}
