// P09: scanning a text gives the same state however the text is aligned or split.
//
// For every scanner kind and a set of automata covering every shortcut shape: every text made of a filler and up
// to two other bytes, every start alignment, every split; against single steps.  The buffer lies between two
// unreadable pages and the bytes around the text are ones that would change the state.
#include "repat.h"
#include "kinds.h"
using namespace kinds;

typedef std::vector<size_t> Key;
template<class Sc> Key key(const Sc& sc, const typename Sc::State& st) {
	if constexpr (IsHF<Sc>::v) { Key k = accepted(sc, st); k.push_back(sc.StateIndex(st)); for (size_t i = 0; i < sc.RegexpsCount(); ++i) k.push_back(st.Result(i)); return k; }
	else return Key{sc.StateIndex(st), (size_t)sc.Final(st), (size_t)sc.Dead(st)};
}
template<> Key key(const SlowScanner& sc, const SlowScanner::State& st) { Key v(st.states.begin(), st.states.end()); std::sort(v.begin(), v.end()); v.push_back(sc.Final(st)); return v; }
template<class Sc> Key keyCount(const Sc& sc, const typename Sc::State& st) { Key k{sc.StateIndex(st)}; for (size_t i = 0; i < sc.RegexpsCount(); ++i) k.push_back(st.Result(i)); return k; }
template<> Key key(const Pire::CountingScanner& sc, const Pire::CountingScanner::State& st) { return keyCount(sc, st); }
template<> Key key(const Pire::AdvancedCountingScanner& sc, const Pire::AdvancedCountingScanner::State& st) { return keyCount(sc, st); }
template<> Key key(const Pire::NoGlueLimitCountingScanner& sc, const Pire::NoGlueLimitCountingScanner::State& st) { return keyCount(sc, st); }
template<> Key key(const Pire::CapturingScanner& sc, const Pire::CapturingScanner::State& st) { return Key{sc.StateIndex(st), st.Captured(), st.Begin(), st.End()}; }
template<> Key key(const Pire::SlowCapturingScanner&, const Pire::SlowCapturingScanner::State& st) {
	Key k{st.GetPos(), st.IsMatched()};
	auto add = [&](const Pire::SlowCapturingScanner::SingleState& s) { k.push_back(s.GetNum()); k.push_back(s.GetBegin()); k.push_back(s.GetEnd()); };
	for (auto& s : st.GetStates()) add(s);
	if (st.IsMatched()) add(st.GetMatched());
	return k;
}

// ---- the buffer ------------------------------------------------------------------------------------------------
static char *page, *pend;
static void makePage() {
	size_t ps = 4096;
	char* m = (char*)mmap(0, 3 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m + ps, ps, PROT_READ | PROT_WRITE);
	page = m + ps; pend = page + ps;
}
struct Text { std::string s; char around; };

/// all texts of length n: filler with up to `specials` other bytes
static std::vector<Text> texts(size_t n, const std::string& letters, int specials) {
	std::vector<Text> r;
	char fill = letters[0];
	std::string base(n, fill);
	char ar = letters.size() > 1 ? letters[1] : fill;
	r.push_back({base, ar});
	if (specials >= 1) for (size_t p = 0; p < n; ++p) for (size_t a = 1; a < letters.size(); ++a) {
		std::string t = base; t[p] = letters[a];
		r.push_back({t, ar});
		if (specials >= 2) for (size_t q = p + 1; q < n; ++q) for (size_t b = 1; b < letters.size(); ++b) { t[q] = letters[b]; r.push_back({t, ar}); t[q] = fill; }
	}
	return r;
}

template<class Sc> struct Checker {
	const Sc& sc; std::string what;
	Key byStep(const std::string& t) {
		typename Sc::State st; sc.Initialize(st);
		for (unsigned char c : t) Pire::Step(sc, st, c);
		mc::ctx().st.transitions += t.size();
		return key(sc, st);
	}
	bool bad = false;
	void report(const Text& t, const std::string& how) {
		if (bad) return;
		bad = true;
		mc::violation(what + ", text " + mc::show(t.s) + ", " + how + ": not the state that single steps give");
	}
	/// every alignment, and flush against both unreadable pages
	void alignments(const Text& t, size_t maxAlign) {
		Key want = byStep(t.s);
		size_t n = t.s.size();
		for (size_t a = 0; a < maxAlign + 2; ++a) {
			char* b = a < maxAlign ? page + 1024 + a : a == maxAlign ? page : pend - n;
			if (a < maxAlign) { memset(page + 1024 - 32, t.around, n + 128); }
			memcpy(b, t.s.data(), n);
			typename Sc::State st; sc.Initialize(st);
			Pire::Run(sc, st, b, b + n);
			++mc::ctx().st.states;
			if (key(sc, st) != want) report(t, a < maxAlign ? "alignment " + std::to_string(a) : "at the edge of the page");
		}
	}
	void split(const Text& t, size_t a, const std::vector<size_t>& cuts, const Key& want) {
		char* b = page + 1024 + a;
		typename Sc::State st; sc.Initialize(st);
		size_t from = 0;
		for (size_t c : cuts) { Pire::Run(sc, st, b + from, b + c); from = c; }
		Pire::Run(sc, st, b + from, b + t.s.size());
		++mc::ctx().st.states;
		if (key(sc, st) != want) {
			std::string s; for (size_t c : cuts) s += " " + std::to_string(c);
			report(t, "alignment " + std::to_string(a) + ", cut at" + s);
		}
	}
	void splits(const Text& t, size_t maxAlign, bool all) {
		Key want = byStep(t.s);
		size_t n = t.s.size();
		for (size_t a = 0; a < maxAlign; ++a) {
			memset(page + 1024 - 32, t.around, n + 128);
			memcpy(page + 1024 + a, t.s.data(), n);
			if (all) {
				for (uint64_t m = 0; m < (1ull << (n ? n - 1 : 0)); ++m) {
					std::vector<size_t> cuts;
					for (size_t i = 1; i < n; ++i) if (m >> (i - 1) & 1) cuts.push_back(i);
					split(t, a, cuts, want);
				}
			} else
				for (size_t c = 0; c <= n; ++c) for (size_t d = c; d <= n; ++d) split(t, a, {c, d}, want);
		}
	}
	void run(const std::string& letters, bool heavy) {
		bool th = mc::ctx().thorough;
		size_t L = heavy ? (th ? 26 : 19) : (th ? 72 : 42);
		for (size_t n = 0; n <= L; ++n) {
			bool two = n <= (heavy ? 10 : th ? 56u : 36u);
			for (auto& t : texts(n, letters, two ? 2 : 1)) alignments(t, 16);
		}
		if (!heavy) for (size_t n : {63, 64, 65, 95, 96, 97, 127, 128, 129}) for (auto& t : texts(n, letters, 1)) alignments(t, 32);
		for (size_t n = 1; n <= (heavy ? 7 : th ? 12u : 9u); ++n) for (auto& t : texts(n, letters, n <= 8 ? 2 : 1)) splits(t, 8, true);
		for (size_t n : heavy ? std::vector<size_t>{18} : std::vector<size_t>{17, 33, 41}) for (auto& t : texts(n, letters, 1)) splits(t, n < 30 || th ? 16 : 3, false);
		++mc::ctx().st.nontrivial;
	}
};
template<class Sc> void check(const Sc& sc, const std::string& what, const std::string& letters, bool heavy) {
	Checker<Sc> c{sc, what};
	c.run(letters, heavy);
}
/// the same scanner mapped at an address that is or is not a multiple of 16
template<class Sc> void checkMapped(const Sc& sc, const std::string& what, const std::string& letters) {
	std::string s = image(sc);
	std::vector<char> mem(s.size() + 64);
	char* base = (char*)(((size_t)mem.data() + 31) & ~(size_t)31);
	for (int off : {0, 8}) {
		memcpy(base + off, s.data(), s.size());
		Sc x;
		x.Mmap(base + off, s.size());
		check(x, what + " mapped at offset " + std::to_string(off), letters, false);
	}
}
template<class S1, class S2> void pair(const S1& a, const S2& b, const std::string& what, const std::string& letters, size_t L) {
	for (size_t n = 0; n <= L; ++n) for (auto& t : texts(n, letters, n < 14 ? 2 : 1)) {
		typename S1::State a0; typename S2::State b0;
		a.Initialize(a0); b.Initialize(b0);
		for (unsigned char c : t.s) { Pire::Step(a, a0, c); Pire::Step(b, b0, c); }
		for (size_t al = 0; al < 10; ++al) {
			char* p = al < 8 ? page + 1024 + al : al == 8 ? page : pend - n;
			if (al < 8) memset(page + 1024 - 32, t.around, n + 128);
			memcpy(p, t.s.data(), n);
			typename S1::State a1; typename S2::State b1;
			a.Initialize(a1); b.Initialize(b1);
			Pire::Run(a, b, a1, b1, p, p + n);
			++mc::ctx().st.states;
			if (key(a, a1) != key(a, a0) || key(b, b1) != key(b, b0)) { mc::violation(what + ", text " + mc::show(t.s) + ", alignment " + std::to_string(al) + ": pair run differs"); return; }
			// the pair as a scanner
			typedef Pire::ScannerPair<S1, S2> P;
			P pr(a, b);
			typename P::State ps;
			pr.Initialize(ps);
			Pire::Run(pr, ps, p, p + n);
			if (key(a, ps.first) != key(a, a0) || key(b, ps.second) != key(b, b0)) { mc::violation(what + ": ScannerPair run differs"); return; }
			if (pr.Final(ps) != (a.Final(a0) || b.Final(b0))) { mc::violation(what + ": ScannerPair::Final differs"); return; }
			if (pr.Dead(ps) != (a.Dead(a0) && b.Dead(b0))) { mc::violation(what + ": ScannerPair::Dead differs"); return; }
		}
	}
	++mc::ctx().st.nontrivial;
}

static Fsm parse(const std::string& p, bool surround, const std::string& feat = "") {
	std::vector<Pire::wchar32> w;
	for (unsigned char c : p) w.push_back(c);
	Pire::Lexer lx(w.begin(), w.end());
	if (!feat.empty()) lx.AddFeature(Pire::Features::Capture(feat[0] - '0'));
	Fsm f = lx.Parse();
	if (surround) f.Surround();
	return f;
}

struct Aut { const char* re; bool sur; std::string letters; };
// letters[0] is the filler
static const std::vector<Aut> auts = {
	{".*", false, "xa"}, {"", false, "xa"}, {"~", false, "xa"}, {"a", true, "xa"}, {"a", true, "`ab"}, {"[ab]", true, "xab"}, {"[ab]", true, "cab"}, {"[abc]", true, "xabc"}, {"ab", true, "xab"},
	{"ab", true, "axb"}, {"a.*b", true, "xab"}, {"aa", true, "xa"}, {"x*a", false, "xa"}, {"x*", false, "xa"}, {"x*ax*b", false, "xab"}, {"x*[ab]x*", false, "xab"}, {"(ax*b|x)*", false, "xab"},
	{"a$", true, "xa"}, {"^a", true, "xa"}, {"x*$", false, "xa"}, {"[\\x80\\xff]", true, "x\x80\xff"}, {"[\\x80\\xff]", true, "\x7f\x80\x81"}, {"[\\x01\\x02]", true, std::string("\0\1\2", 3)}, {"[\\xfe\\xff]", true, "\xfd\xfe\xff"},
	{"\\x01", true, std::string("\0\1", 2)}, {"[\\x00-\\x01]", true, "x\x01\x02"}, {"a{3}", true, "xa"}, {"a|bb", true, "xab"}, {"x{8}a", true, "xa"}, {"(x{3})*a", false, "xa"}, {"[^x]x*[^x]", true, "xab"}, {"(x|ax)*", false, "xa"},
	{"a.{6}b", true, "xab"}, {"[^xy]", true, "xya"},
};
static std::string autName(size_t i) { return std::string("/") + auts[i].re + "/" + (auts[i].sur ? " to be found" : "") + " over " + mc::show(auts[i].letters); }
static Fsm aut(size_t i) {
	if (std::string(auts[i].re) == "~") return Fsm::MakeFalse();
	return parse(auts[i].re, auts[i].sur);
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	makePage();
	struct Kind { const char* name; std::function<void(size_t)> f; };
	std::vector<Kind> ks;
	auto light = [&](auto* tag, const char* n) {
		typedef std::remove_pointer_t<decltype(tag)> Sc;
		ks.push_back({n, [n](size_t i) { check(compile<Sc>(aut(i)), n, auts[i].letters, false); }});
	};
	light((Scanner*)0, "Scanner"); light((NonrelocScanner*)0, "NonrelocScanner"); light((ScannerNoMask*)0, "ScannerNoMask"); light((NonrelocScannerNoMask*)0, "NonrelocScannerNoMask");
	light((SimpleScanner*)0, "SimpleScanner");
	ks.push_back({"mapped Scanner", [](size_t i) { checkMapped(compile<Scanner>(aut(i)), "Scanner", auts[i].letters); }});
	ks.push_back({"converted", [](size_t i) { Scanner s(compile<Scanner>(aut(i))); check(NonrelocScanner(s), "NonrelocScanner(Scanner)", auts[i].letters, false); }});
	ks.push_back({"glued Scanner", [](size_t i) { for (size_t j : {3, 5, 12, 17}) check(Scanner::Glue(compile<Scanner>(aut(i)), compile<Scanner>(aut(j))), "glued Scanner", auts[i].letters, false); }});
	ks.push_back({"SlowScanner", [](size_t i) { check(compile<SlowScanner>(aut(i)), "SlowScanner", auts[i].letters, true); }});
	ks.push_back({"HalfFinalScanner", [](size_t i) { check(HalfFinalScanner(aut(i)), "HalfFinalScanner", auts[i].letters, true); }});
	ks.push_back({"NonrelocHalfFinalScannerNoMask", [](size_t i) { check(NonrelocHalfFinalScannerNoMask(aut(i)), "NonrelocHalfFinalScannerNoMask", auts[i].letters, true); }});
	ks.push_back({"counting", [](size_t i) {
		Fsm sep = parse("x*", false);
		check(Pire::CountingScanner(aut(i), sep), "CountingScanner", auts[i].letters, true);
		check(Pire::AdvancedCountingScanner(aut(i), sep), "AdvancedCountingScanner", auts[i].letters, true);
		check(Pire::NoGlueLimitCountingScanner(aut(i), sep), "NoGlueLimitCountingScanner", auts[i].letters, true);
	}});
	ks.push_back({"capturing", [](size_t i) {
		if (std::string(auts[i].re) == "~") return;
		std::string re = std::string("x*(") + auts[i].re + ")x*";
		if (strchr(auts[i].re, '^') == auts[i].re || strchr(auts[i].re, '$')) re = "x*(a)x*";
		check(parse(re, true, "1").Compile<Pire::CapturingScanner>(), "CapturingScanner", auts[i].letters, true);
		Fsm f = parse(re, false, "1");
		check(f.Compile<Pire::SlowCapturingScanner>(), "SlowCapturingScanner", auts[i].letters, true);
	}});
	mc::phase("texts", auts.size() * ks.size(), [&](uint64_t i) { return std::string(ks[i % ks.size()].name) + " " + autName(i / ks.size()); }, [&](uint64_t i) {
		ks[i % ks.size()].f(i / ks.size());
		if (i % 41 == 5) mc::sample(std::string(ks[i % ks.size()].name) + " " + autName(i / ks.size()));
	});
	// pairs of scanners of the same and different kinds
	mc::phase("pairs", auts.size() * auts.size(), [&](uint64_t i) { return autName(i % auts.size()) + " with " + autName(i / auts.size()); }, [&](uint64_t i) {
		size_t x = i % auts.size(), y = i / auts.size();
		std::string let = auts[x].letters;
		for (char c : auts[y].letters) if (let.find(c) == std::string::npos && let.size() < 4) let += c;
		size_t L = th ? 33 : 18;
		switch ((x + 3 * y) % 8) {
			case 0: pair(compile<Scanner>(aut(x)), compile<Scanner>(aut(y)), "Scanner+Scanner", let, L); break;
			case 1: pair(compile<Scanner>(aut(x)), compile<SimpleScanner>(aut(y)), "Scanner+SimpleScanner", let, L); break;
			case 2: pair(compile<NonrelocScanner>(aut(x)), compile<Scanner>(aut(y)), "NonrelocScanner+Scanner", let, L); break;
			case 3: pair(compile<ScannerNoMask>(aut(x)), compile<Scanner>(aut(y)), "ScannerNoMask+Scanner", let, L); break;
			case 4: pair(compile<SlowScanner>(aut(x)), compile<Scanner>(aut(y)), "SlowScanner+Scanner", let, L); break;
			case 5: pair(compile<Scanner>(aut(x)), HalfFinalScanner(aut(y)), "Scanner+HalfFinalScanner", let, L); break;
			case 6: pair(Pire::AdvancedCountingScanner(aut(x), parse("x*", false)), compile<Scanner>(aut(y)), "AdvancedCountingScanner+Scanner", let, L); break;
			case 7: pair(compile<SimpleScanner>(aut(x)), Pire::CountingScanner(aut(y), parse("x*", false)), "SimpleScanner+CountingScanner", let, L); break;
		}
	});
	// every pair of exit byte and filler byte
	mc::phase("one mask", 256, [](uint64_t i) { return "exit byte " + std::to_string(i); }, [&](uint64_t m) {
		Fsm f;
		f.Append((unsigned char)m);
		f.Surround();
		Scanner sc = f.Compile<Scanner>();
		Checker<Scanner> c{sc, "Scanner with one exit byte"};
		for (int fl = 0; fl < 256; ++fl) {
			if (fl == (int)m) continue;
			std::string let{(char)fl, (char)m};
			for (auto& t : texts(40, let, 1)) c.alignments(t, 4);
			if (th) for (auto& t : texts(70, let, 1)) c.alignments(t, 16);
		}
	});
	mc::phase("two masks", 256, [](uint64_t i) { return "exit byte " + std::to_string(i) + " and another"; }, [&](uint64_t m) {
		for (unsigned k = m + 1; k < 256; ++k) {
			Fsm f;
			f.Append((unsigned char)m);
			Fsm g;
			g.Append((unsigned char)k);
			f |= g;
			f.Surround();
			Scanner sc = f.Compile<Scanner>();
			Checker<Scanner> c{sc, "Scanner with two exit bytes"};
			for (unsigned fl : std::set<unsigned>{(unsigned)m ^ 1, k ^ 1, (unsigned)(m + 1) & 255, (k - 1) & 255, (unsigned)m ^ 128, k ^ 128, 0u, 255u}) {
				if (fl == m || fl == k) continue;
				std::string let{(char)fl, (char)m, (char)k};
				for (auto& t : texts(17, let, 1)) c.alignments(t, 1);
				for (auto& t : texts(33, let, 1)) c.alignments(t, 1);
			}
		}
	});
	return mc::finish();
}
