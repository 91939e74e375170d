// P08: all scanner kinds compiled from one automaton agree on every text.
//
// Every construction program and raw automaton of a size, every pattern of a length: all ten scanner kinds and
// their conversions, each explored in product with the reference DFA of the automaton.
#include "fsmexpr.h"
#include "raw.h"
#include "repat.h"
#include "kinds.h"
using namespace kinds;

static ref::Lang* G;

template<class Sc> void eq(const Sc& sc, const L& l, const std::string& what) {
	std::string e = mc::compare(sc, *l, G->al);
	if (!e.empty()) mc::violation(what + ": " + e);
}
template<class Sc> void eqHF(const Sc& sc, const L& l, const std::string& what) {
	std::string e = compareHF(sc, {l}, G->al);
	if (!e.empty()) mc::violation(what + ": " + e);
}

static void allKinds(const Fsm& f, const L& l) {
	Scanner s = compile<Scanner>(f);
	NonrelocScanner n = compile<NonrelocScanner>(f);
	ScannerNoMask m = compile<ScannerNoMask>(f);
	NonrelocScannerNoMask nm = compile<NonrelocScannerNoMask>(f);
	eq(s, l, "Scanner");
	eq(n, l, "NonrelocScanner");
	eq(m, l, "ScannerNoMask");
	eq(nm, l, "NonrelocScannerNoMask");
	eq(compile<SimpleScanner>(f), l, "SimpleScanner");
	eq(compile<SlowScanner>(f), l, "SlowScanner");
	eq(NonrelocScanner(s), l, "NonrelocScanner(Scanner)");
	eq(Scanner(n), l, "Scanner(NonrelocScanner)");
	eq(NonrelocScannerNoMask(m), l, "NonrelocScannerNoMask(ScannerNoMask)");
	eq(ScannerNoMask(nm), l, "ScannerNoMask(NonrelocScannerNoMask)");
	eq(Scanner(NonrelocScanner(Scanner(n))), l, "Scanner(NonrelocScanner(Scanner(NonrelocScanner)))");
	if (s.RegexpsCount() != 1 || n.RegexpsCount() != 1 || s.Empty()) mc::violation("a compiled scanner claims to hold no pattern");
	// half-final scanners: texts end with an end mark; without a counter an automaton whose language does not end
	// at the match is read as one to be searched for
	if (rightClosed(*G, l) && !leftClosed(*G, l)) { mc::count("half-final: outside the domain"); return; }
	HalfFinalScanner h = compileHF<HalfFinalScanner>(f);
	NonrelocHalfFinalScanner nh = compileHF<NonrelocHalfFinalScanner>(f);
	eqHF(h, l, "HalfFinalScanner");
	eqHF(nh, l, "NonrelocHalfFinalScanner");
	HalfFinalScannerNoMask hm = compileHF<HalfFinalScannerNoMask>(f);
	eqHF(hm, l, "HalfFinalScannerNoMask");
	eqHF(compileHF<NonrelocHalfFinalScannerNoMask>(f), l, "NonrelocHalfFinalScannerNoMask");
	eqHF(NonrelocHalfFinalScanner(h), l, "NonrelocHalfFinalScanner(HalfFinalScanner)");
	eqHF(HalfFinalScanner(nh), l, "HalfFinalScanner(NonrelocHalfFinalScanner)");
	eqHF(NonrelocHalfFinalScannerNoMask(hm), l, "NonrelocHalfFinalScannerNoMask(HalfFinalScannerNoMask)");
}

// ---- default-constructed and empty scanners ----------------------------------------------------------------------
template<class Sc> void empty1(Sc sc, const std::string& what) {
	typename Sc::State st;
	sc.Initialize(st);
	for (int rep = 0; rep < 3; ++rep) {
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			if (sc.Final(st)) mc::violation(what + " accepts something");
			Pire::Step(sc, st, l);
			++mc::ctx().st.transitions;
		}
		Pire::Run(sc, st, "abcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyz0123456789" + 0);
		std::string text(100, 'x');
		Pire::Run(sc, st, text.data(), text.data() + text.size());
		if (sc.Final(st)) mc::violation(what + " accepts something");
	}
	(void)sc.Dead(st);
	if (!sc.Empty()) mc::violation(what + " is not Empty()");
	if (sc.RegexpsCount() != 0) mc::violation(what + " has patterns");
	++mc::ctx().st.states;
}
template<class Sc> void empties(const std::string& n) {
	Sc a;
	empty1(a, "default " + n);
	{ Sc b(a); empty1(b, "copied default " + n); Sc c; c = b; empty1(c, "assigned default " + n); c.Swap(b); empty1(c, "swapped default " + n); c = c; empty1(c, "self-assigned default " + n); }
	Sc d; { Sc e; d = e; } empty1(d, "default " + n + " whose source is gone");
}
template<class A, class B> void emptyConv(const std::string& n) {
	A a; B b(a); empty1(b, n); A c(b); empty1(c, n + " and back");
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::vector<std::pair<std::string, void (*)()>> dflt = {
		{"Scanner", [] { empties<Scanner>("Scanner"); }}, {"NonrelocScanner", [] { empties<NonrelocScanner>("NonrelocScanner"); }},
		{"ScannerNoMask", [] { empties<ScannerNoMask>("ScannerNoMask"); }}, {"NonrelocScannerNoMask", [] { empties<NonrelocScannerNoMask>("NonrelocScannerNoMask"); }},
		{"SimpleScanner", [] { empties<SimpleScanner>("SimpleScanner"); }}, {"SlowScanner", [] { empties<SlowScanner>("SlowScanner"); }},
		{"HalfFinalScanner", [] { empties<HalfFinalScanner>("HalfFinalScanner"); }}, {"NonrelocHalfFinalScanner", [] { empties<NonrelocHalfFinalScanner>("NonrelocHalfFinalScanner"); }},
		{"CountingScanner", [] { empties<Pire::CountingScanner>("CountingScanner"); }}, {"AdvancedCountingScanner", [] { empties<Pire::AdvancedCountingScanner>("AdvancedCountingScanner"); }},
		{"NoGlueLimitCountingScanner", [] { empties<Pire::NoGlueLimitCountingScanner>("NoGlueLimitCountingScanner"); }},
		{"CapturingScanner", [] { empties<Pire::CapturingScanner>("CapturingScanner"); }},
		{"conversions", [] {
			emptyConv<Scanner, NonrelocScanner>("NonrelocScanner(default Scanner)"); emptyConv<NonrelocScanner, Scanner>("Scanner(default NonrelocScanner)");
			emptyConv<ScannerNoMask, NonrelocScannerNoMask>("NonrelocScannerNoMask(default)"); emptyConv<NonrelocScannerNoMask, ScannerNoMask>("ScannerNoMask(default)");
			emptyConv<HalfFinalScanner, NonrelocHalfFinalScanner>("NonrelocHalfFinalScanner(default)"); }},
	};
	mc::phase("empty", dflt.size(), [&](uint64_t i) { return "default " + dflt[i].first; }, [&](uint64_t i) { dflt[i].second(); });

	// construction programs
	std::map<int, L> memo;
	G = &fx::lang();
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_DOT, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR, fx::AND};
	full.build(3);
	mc::phase("expr", full.nodes.size(), [&](uint64_t i) { return full.text(i); }, [&](uint64_t i) {
		allKinds(fx::build(full, i), fx::refl(full, i, memo));
		if (i % 499 == 3) mc::sample(full.text(i));
	});
	{
		fx::Pool p;
		p.nul = {fx::A, fx::STR, fx::EMARK};
		p.un = {fx::STAR, fx::NOT, fx::SURR, fx::ADD_EM};
		p.bin = {fx::CAT, fx::OR};
		p.build(th ? 5 : 4);
		memo.clear();
		mc::phase("expr reduced", p.nodes.size() - p.begin[4], [&](uint64_t i) { return p.text(p.begin[4] + i); }, [&](uint64_t i) {
			allKinds(fx::build(p, p.begin[4] + i), fx::refl(p, p.begin[4] + i, memo));
		});
	}
	auto rawPhase = [&](const char* name, const auto& all) {
		mc::phase(name, all.count(), [&](uint64_t i) { return all.get(i).text(); }, [&](uint64_t i) {
			G = &fx::lang();
			raw::Nfa a = all.get(i);
			allKinds(a.build(), a.lang(*G));
		});
	};
	rawPhase("nfa 2 states a,eps", raw::AllNfa{2, {'a', raw::EPSI}});
	rawPhase("nfa 2 states a,EM", raw::AllNfa{2, {'a', ref::EM}});
	if (th) rawPhase("nfa 2 states a,b,eps", raw::AllNfa{2, {'a', 'b', raw::EPSI}});
	rawPhase("nfa 3 states a", raw::AllNfa{3, {'a'}});
	if (th) rawPhase("dfa 3 states a,b", raw::AllDfa{3, {'a', 'b'}, true});

	// parsed patterns, as written and to be searched for
	refre::Opts lat;
	refre::Seqs seqs({"a", "b", ".", "[^a]", "^", "$", "|", "(", ")", "*", "{2}"}, th ? 5 : 4);
	mc::phase("patterns", seqs.total, [&](uint64_t i) { return refre::show(seqs.get(i)); }, [&](uint64_t i) {
		auto p = seqs.get(i);
		auto tree = refre::parse(p, lat);
		if (!tree) return;
		Fsm f = refre::parsePire(p, lat);
		refre::Denote den(lat, {tree});
		G = den.lang.get();
		L l = den.eval(tree);
		Fsm s(f);
		s.Surround();
		allKinds(s, G->surround(l));
		if (i % 3 == 0 || th) allKinds(f, l);
	});
	// many letter classes and many states
	mc::phase("letter classes", 256, [](uint64_t i) { return std::to_string(i + 1) + " letters with states of their own"; }, [&](uint64_t i) {
		int k = i + 1;
		std::string all;
		for (int c = 0; c < 256; ++c) all += (char)c;
		static ref::Lang g(ref::Alpha::letters(all));
		G = &g;
		Fsm f;
		f.Resize(k + 2);
		f.ClearFinal();
		ref::Nfa n(g.al.k);
		for (int s = 0; s < k + 2; ++s) n.add(s == k + 1);
		n.starts = {0};
		f.SetFinal(k + 1, true);
		for (int c = 0; c < k; ++c) {
			int d = (c * 7 + 1) % 256, e = 255 - c;
			f.Connect(0, c + 1, (unsigned char)e); n.tr[0][g.al.cls[e]].push_back(c + 1);
			f.Connect(c + 1, k + 1, (unsigned char)d); n.tr[c + 1][g.al.cls[d]].push_back(k + 1);
		}
		f.SetIsDetermined(false);
		ref::Dfa d = n.determinize();
		L l = g.intern(d);
		if (k % 37 == 1 || k > 253 || th) allKinds(f, l);
		else {
			eq(compile<Scanner>(f), l, "Scanner");
			eq(compile<SimpleScanner>(f), l, "SimpleScanner");
			eq(NonrelocScanner(compile<Scanner>(f)), l, "NonrelocScanner(Scanner)");
		}
	});
	return mc::finish();
}
