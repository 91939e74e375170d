// P12: a scanner calls a state dead exactly when no continuation can be accepted.
//
// Every construction program, raw automaton and pattern of a size, every scanner kind, conversion, loaded copy and
// gluing; dead flags of all reachable states against liveness in the reference DFA (half-final scanners: against
// reachability of a match in the explored state graph, whose matches are judged by P08 and P20).
#include "fsmexpr.h"
#include "raw.h"
#include "repat.h"
#include "kinds.h"
using namespace kinds;

static ref::Lang* G;

template<class Sc> void exact(const Sc& sc, const std::vector<L>& ls, const std::string& what) {
	std::string e = compareMulti(sc, ls, G->al, true);
	if (!e.empty()) mc::violation(what + ": " + e);
}
template<class Sc> void sound(const Sc& sc, const L& l, const std::string& what) {
	mc::ProdOpts o; o.deadSound = true;
	std::string e = mc::compare(sc, *l, G->al, o);
	if (!e.empty()) mc::violation(what + ": " + e);
}
template<class Sc> void graph(const Sc& sc, const std::string& what) {
	typedef typename Sc::State St;
	std::map<size_t, int> id;
	std::vector<St> q;
	std::vector<int> from, by;
	std::vector<std::vector<int>> pred;
	auto push = [&](const St& s, int p, int l) {
		auto it = id.insert({sc.StateIndex(s), (int)q.size()});
		if (it.second) { q.push_back(s); pred.push_back({}); from.push_back(p); by.push_back(l); }
		if (p >= 0) pred[it.first->second].push_back(p);
	};
	St s0;
	sc.Initialize(s0);
	push(s0, -1, 0);
	for (size_t i = 0; i < q.size(); ++i) {
		++mc::ctx().st.states;
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			St s = q[i];
			Pire::Step(sc, s, (Pire::Char)l);
			++mc::ctx().st.transitions;
			push(s, (int)i, l);
		}
	}
	std::vector<char> live(q.size());
	std::vector<int> w;
	for (size_t i = 0; i < q.size(); ++i) if (sc.Final(q[i])) { live[i] = 1; w.push_back(i); }
	while (!w.empty()) { int i = w.back(); w.pop_back(); for (int p : pred[i]) if (!live[p]) { live[p] = 1; w.push_back(p); } }
	for (size_t i = 0; i < q.size(); ++i) if ((bool)sc.Dead(q[i]) == (bool)live[i]) {
		std::vector<int> t;
		for (int k = i; from[k] >= 0; k = from[k]) t.push_back(by[k]);
		std::reverse(t.begin(), t.end());
		mc::violation(what + ": text " + mc::showLetters(t) + ": state " + (live[i] ? "reported dead although a match is reachable" : "not reported dead although no match is reachable"));
		return;
	}
	if (q.size() > 2) ++mc::ctx().st.nontrivial;
}
template<class A, class B> void pairOf(const A& a, const B& b, const L& la, const L& lb, const std::string& what) {
	typedef Pire::ScannerPair<A, B> P;
	P p(a, b);
	std::set<std::tuple<std::pair<size_t, size_t>, int, int>> seen;
	struct N { typename P::State s; int x, y; };
	std::vector<N> q;
	auto push = [&](const N& n) { auto k = p.StateIndex(n.s); if (seen.insert({{k.first, k.second}, n.x, n.y}).second) q.push_back(n); };
	typename P::State s;
	p.Initialize(s);
	auto va = la->live(), vb = lb->live();
	push(N{s, la->start, lb->start});
	for (size_t i = 0; i < q.size(); ++i) {
		N n = q[i];
		++mc::ctx().st.states;
		if ((bool)p.Final(n.s) != (la->fin[n.x] || lb->fin[n.y])) { mc::violation(what + ": wrong verdict"); return; }
		if ((bool)p.Dead(n.s) == (va[n.x] || vb[n.y])) { mc::violation(what + ": wrong dead state"); return; }
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			N m = n;
			Pire::Step(p, m.s, (Pire::Char)l);
			m.x = la->next(n.x, G->al.cls[l]); m.y = lb->next(n.y, G->al.cls[l]);
			push(m);
		}
	}
}

static void allKinds(const Fsm& f, const L& l) {
	Scanner s = compile<Scanner>(f);
	NonrelocScanner n = compile<NonrelocScanner>(f);
	exact(s, {l}, "Scanner");
	exact(n, {l}, "NonrelocScanner");
	exact(compile<ScannerNoMask>(f), {l}, "ScannerNoMask");
	exact(compile<NonrelocScannerNoMask>(f), {l}, "NonrelocScannerNoMask");
	exact(NonrelocScanner(s), {l}, "NonrelocScanner(Scanner)");
	exact(Scanner(n), {l}, "Scanner(NonrelocScanner)");
	{ std::istringstream in(image(s)); Scanner x; x.Load(&in); exact(x, {l}, "loaded Scanner"); }
	sound(compile<SimpleScanner>(f), l, "SimpleScanner");
	sound(compile<SlowScanner>(f), l, "SlowScanner");
	graph(compileHF<HalfFinalScanner>(f), "HalfFinalScanner");
	graph(compileHF<NonrelocHalfFinalScannerNoMask>(f), "NonrelocHalfFinalScannerNoMask");
	for (int k = 0; k < 5; ++k) {
		Pire::HalfFinalFsm h(f);
		switch (k) { case 0: h.MakeGreedyCounter(true); break; case 1: h.MakeGreedyCounter(false); break; case 2: h.MakeNonGreedyCounter(true, true); break;
			case 3: h.MakeNonGreedyCounter(true, false); break; case 4: h.MakeNonGreedyCounter(false); break; }
		static const char* nm[] = {"simplified greedy counter", "greedy counter", "simplified non-greedy counter", "non-greedy counter", "non-greedy counter without intersections"};
		graph(HalfFinalScanner(h), nm[k]);
		graph(NonrelocHalfFinalScanner(h), std::string("non-relocatable ") + nm[k]);
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::map<int, L> memo;
	G = &fx::lang();
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_DOT, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR, fx::AND};
	full.build(3);
	mc::phase("expr", full.nodes.size(), [&](uint64_t i) { return full.text(i); }, [&](uint64_t i) {
		allKinds(fx::build(full, i), fx::refl(full, i, memo));
		if (i % 499 == 3) mc::sample(full.text(i));
	});
	fx::Pool red;
	red.nul = {fx::A, fx::STR, fx::EMARK};
	red.un = {fx::STAR, fx::NOT, fx::SURR, fx::ADD_EM};
	red.bin = {fx::CAT, fx::OR};
	red.build(th ? 5 : 4);
	std::map<int, L> memo2;
	mc::phase("expr reduced", red.nodes.size() - red.begin[4], [&](uint64_t i) { return red.text(red.begin[4] + i); }, [&](uint64_t i) {
		allKinds(fx::build(red, red.begin[4] + i), fx::refl(red, red.begin[4] + i, memo2));
	});
	auto rawPhase = [&](const char* name, const auto& all) {
		mc::phase(name, all.count(), [&](uint64_t i) { return all.get(i).text(); }, [&](uint64_t i) {
			G = &fx::lang();
			raw::Nfa a = all.get(i);
			allKinds(a.build(), a.lang(*G));
		});
	};
	rawPhase("nfa 2 states a,eps", raw::AllNfa{2, {'a', raw::EPSI}});
	rawPhase("nfa 2 states a,EM", raw::AllNfa{2, {'a', ref::EM}});
	rawPhase("nfa 3 states a", raw::AllNfa{3, {'a'}});
	if (th) { rawPhase("nfa 2 states a,b,eps", raw::AllNfa{2, {'a', 'b', raw::EPSI}}); rawPhase("dfa 3 states a,b", raw::AllDfa{3, {'a', 'b'}, true}); }

	// gluings and pairs
	std::vector<int> pick;
	{
		std::set<const ref::Dfa*> seen;
		for (size_t i = 0; i < full.nodes.size(); ++i) if (seen.insert(fx::refl(full, i, memo).get()).second) pick.push_back(i);
	}
	size_t np = std::min<size_t>(pick.size(), th ? 200 : 90), nt = th ? 24 : 12;
	mc::phase("glued pairs", np * np, [&](uint64_t i) { return "Glue: " + full.text(pick[i / np]) + " " + full.text(pick[i % np]); }, [&](uint64_t i) {
		int x = pick[i / np], y = pick[i % np];
		L lx = fx::refl(full, x, memo), ly = fx::refl(full, y, memo);
		Fsm f = fx::build(full, x), g = fx::build(full, y);
		Scanner a = compile<Scanner>(f), b = compile<Scanner>(g);
		exact(Scanner::Glue(a, b), {lx, ly}, "Glue");
		pairOf(a, b, lx, ly, "ScannerPair");
		if (i % 4 == 0 || th) {
			exact(NonrelocScanner::Glue(compile<NonrelocScanner>(f), compile<NonrelocScanner>(g)), {lx, ly}, "non-relocatable Glue");
			exact(ScannerNoMask::Glue(compile<ScannerNoMask>(f), compile<ScannerNoMask>(g)), {lx, ly}, "mask-free Glue");
			graph(HalfFinalScanner::Glue(compileHF<HalfFinalScanner>(f), compileHF<HalfFinalScanner>(g)), "half-final Glue");
			pairOf(a, compile<NonrelocScanner>(g), lx, ly, "ScannerPair of different kinds");
		}
	});
	mc::phase("glued triples", nt * nt * nt, [&](uint64_t i) { return "Glue: " + full.text(pick[i / nt / nt]) + " " + full.text(pick[i / nt % nt]) + " " + full.text(pick[i % nt]); }, [&](uint64_t i) {
		int x = pick[i / nt / nt], y = pick[i / nt % nt], z = pick[i % nt];
		Scanner a = compile<Scanner>(fx::build(full, x)), b = compile<Scanner>(fx::build(full, y)), c = compile<Scanner>(fx::build(full, z));
		std::vector<L> ls = {fx::refl(full, x, memo), fx::refl(full, y, memo), fx::refl(full, z, memo)};
		exact(Scanner::Glue(Scanner::Glue(a, b), c), ls, "Glue(Glue(a, b), c)");
		exact(Scanner::Glue(a, Scanner::Glue(b, c)), ls, "Glue(a, Glue(b, c))");
	});
	// patterns
	refre::Opts lat;
	refre::Seqs seqs({"a", "b", ".", "[^a]", "^", "$", "|", "(", ")", "*", "{2}"}, th ? 5 : 4);
	mc::phase("patterns", seqs.total, [&](uint64_t i) { return refre::show(seqs.get(i)); }, [&](uint64_t i) {
		auto p = seqs.get(i);
		auto tree = refre::parse(p, lat);
		if (!tree) return;
		Fsm f = refre::parsePire(p, lat);
		refre::Denote den(lat, {tree});
		G = den.lang.get();
		L l = den.eval(tree);
		exact(compile<Scanner>(f), {l}, "Scanner");
		f.Surround();
		exact(compile<NonrelocScanner>(f), {G->surround(l)}, "NonrelocScanner, searching");
	});
	return mc::finish();
}
