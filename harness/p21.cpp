// P21: approximate matching accepts exactly the texts within the edit distance.
//
// Every construction program of a size, every raw automaton of a size and patterns, compiled with distance 0 to 3
// in every scanner kind, each explored in product with the minimal DFA of the reference language of all words within
// that distance.
#include "fsmexpr.h"
#include "raw.h"
#include "repat.h"
#include "kinds.h"
#include "approx.h"
using namespace kinds;

static ref::Lang* G;

template<class Sc> void eq(const Sc& sc, const L& l, const std::string& what) {
	std::string e = mc::compare(sc, *l, G->al);
	if (!e.empty()) mc::violation(what + ": " + e);
}
template<class Sc> void eqHF(const Sc& sc, const L& l, const std::string& what) {
	std::string e = compareHF(sc, {l}, G->al);
	if (!e.empty()) mc::violation(what + ": " + e);
}
template<class Sc> Sc comp(const Fsm& f, int k) { Fsm x(f); return x.Compile<Sc>(k); }
template<class Sc> Sc direct(const Fsm& f, int k) { Fsm x(f); return Sc(x, k); }

/// every kind or just the two basic ones
static void check(const Fsm& f, const L& l, int kmax, bool kinds) {
	L prev;
	for (int k = 0; k <= kmax; ++k) {
		L want = approx::within(*G, l, k);
		std::string d = "distance " + std::to_string(k) + ", ";
		if (prev && G->diff(prev, want) != G->none()) mc::violation(d + "the reference is broken");
		prev = want;
		eq(comp<Scanner>(f, k), want, d + "Scanner");
		eq(comp<SlowScanner>(f, k), want, d + "SlowScanner");
		if (!kinds) continue;
		eq(direct<Scanner>(f, k), want, d + "Scanner, constructed");
		eq(comp<NonrelocScanner>(f, k), want, d + "NonrelocScanner");
		eq(comp<ScannerNoMask>(f, k), want, d + "ScannerNoMask");
		eq(comp<NonrelocScannerNoMask>(f, k), want, d + "NonrelocScannerNoMask");
		eq(comp<SimpleScanner>(f, k), want, d + "SimpleScanner");
		if (rightClosed(*G, want) && !leftClosed(*G, want)) { mc::count("half-final: outside the domain"); continue; }
		eqHF(direct<HalfFinalScanner>(f, k), want, d + "HalfFinalScanner");
		eqHF(direct<HalfFinalScannerNoMask>(f, k), want, d + "HalfFinalScannerNoMask");
		eqHF(direct<NonrelocHalfFinalScanner>(f, k), want, d + "NonrelocHalfFinalScanner");
		eqHF(direct<NonrelocHalfFinalScannerNoMask>(f, k), want, d + "NonrelocHalfFinalScannerNoMask");
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::map<int, L> memo;
	G = &fx::lang();
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_DOT, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR, fx::AND};
	full.build(3);
	uint64_t n2 = full.begin[3];
	mc::phase("programs, all kinds", n2 * fx::REPRS, [&](uint64_t i) { return full.text(i % n2) + ", " + fx::reprname(i / n2); }, [&](uint64_t i) {
		check(fx::operand(full, i % n2, i / n2), fx::refl(full, i % n2, memo), 2, true);
	});
	mc::phase("programs", full.nodes.size() * 2, [&](uint64_t i) { return full.text(i / 2) + (i & 1 ? ", canonized" : ""); }, [&](uint64_t i) {
		check(fx::operand(full, i / 2, i & 1 ? fx::CANONICAL : fx::AS_IS), fx::refl(full, i / 2, memo), th ? 3 : 2, false);
		if (i % 499 == 3) mc::sample(full.text(i / 2));
	});
	if (th) {
		fx::Pool p;
		p.nul = {fx::A, fx::STR, fx::EMARK};
		p.un = {fx::STAR, fx::NOT, fx::SURR, fx::ADD_EM};
		p.bin = {fx::CAT, fx::OR};
		p.build(4);
		memo.clear();
		mc::phase("programs, reduced", p.nodes.size() - p.begin[4], [&](uint64_t i) { return p.text(p.begin[4] + i); }, [&](uint64_t i) {
			check(fx::build(p, p.begin[4] + i), fx::refl(p, p.begin[4] + i, memo), 2, false);
		});
	}
	auto rawPhase = [&](const char* name, const auto& all, int k) {
		mc::phase(name, all.count(), [&](uint64_t i) { return all.get(i).text(); }, [&](uint64_t i) {
			G = &fx::lang();
			raw::Nfa a = all.get(i);
			check(a.build(), a.lang(*G), k, false);
		});
	};
	rawPhase("nfa 2 states a,eps", raw::AllNfa{2, {'a', raw::EPSI}}, 2);
	rawPhase("dfa 3 states a,b", raw::AllDfa{3, {'a', 'b'}, true}, 1);
	if (th) rawPhase("nfa 3 states a", raw::AllNfa{3, {'a'}}, 2);

	// words, to be matched as a whole and to be searched for
	mc::phase("words", 2 * ((th ? 2048 : 128) - 2), [&](uint64_t i) { return (i & 1 ? "searched word " : "word ") + std::to_string(i / 2 + 2) + " (bits behind the first)"; }, [&](uint64_t i) {
		G = &fx::lang();
		std::string w;
		for (uint64_t n = i / 2 + 2; n > 1; n /= 2) w += "ab"[n & 1];
		std::string p = i & 1 ? w : "^" + w + "$";
		L l = i & 1 ? G->surround(G->str(w)) : G->cat(G->cat(G->letter(ref::BM), G->str(w)), G->letter(ref::EM));
		Fsm f = Pire::Lexer(p.data(), p.data() + p.size()).Parse();
		if (i & 1) f.Surround();
		check(f, l, 3, w.size() == 3);
	});

	// parsed patterns, as written and to be searched for
	refre::Opts lat;
	refre::Seqs seqs({"a", "b", ".", "[^a]", "^", "$", "|", "(", ")", "*", "{2}"}, th ? 5 : 4);
	mc::phase("patterns", seqs.total, [&](uint64_t i) { return refre::show(seqs.get(i)); }, [&](uint64_t i) {
		auto p = seqs.get(i);
		auto tree = refre::parse(p, lat);
		if (!tree) return;
		Fsm f = refre::parsePire(p, lat);
		refre::Denote den(lat, {tree});
		G = den.lang.get();
		L l = den.eval(tree);
		check(f, l, 1, false);
		if (i % 3 == 0) { f.Surround(); check(f, G->surround(l), 1, false); }
	});
	return mc::finish();
}
