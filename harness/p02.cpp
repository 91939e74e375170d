// P02: prefix closure, suffix closure, mirror image and dead-end analysis on every small automaton.
//
// Automata: every construction program up to a size, every raw automaton of 2 states over {a, b, empty}, of 3
// states over fewer letters, every partial deterministic automaton of 3 states over {a, b}; each in several
// internal representations (as built, with letter classes packed, determinized, canonized).  Every sequence of
// up to two transformations is applied; each result is explored in product with the reference DFA.
#include "fsmexpr.h"
#include "raw.h"
using namespace fx;

enum { T_PREFIX, T_SUFFIX, T_REVERSE, T_DEADENDS, T_CANON, T_N };
static const char* tname[] = {"prefix", "suffix", "reverse", "remove_dead_ends", "canonize"};

static void apply(Fsm& f, int t) {
	switch (t) {
		case T_PREFIX: f.MakePrefix(); break;
		case T_SUFFIX: f.MakeSuffix(); break;
		case T_REVERSE: f.Reverse(); break;
		case T_DEADENDS: f.RemoveDeadEnds(); break;
		case T_CANON: f.Canonize(); break;
	}
}
static L applyRef(ref::Lang& g, const L& l, int t) {
	switch (t) {
		case T_PREFIX: return g.prefixes(l);
		case T_SUFFIX: return g.suffixes(l);
		case T_REVERSE: return g.rev(l);
	}
	return l;
}

/// language with no accepting path from the start: the minimal DFA of suffixes() must not contain dead states
static L suffixes(ref::Lang& g, const L& l) {
	ref::Nfa m(g.al.k);
	m.import(*l);
	auto live = l->live();
	for (int s = 0; s < l->n(); ++s) if (live[s]) m.starts.push_back(s);
	return g.intern(m.determinize());
}

static void checkLang(const Fsm& f, const L& l, ref::Lang& g, const std::string& what, bool slow) {
	std::string e;
	if (slow) e = mc::compare(Fsm(f).Compile<Pire::SlowScanner>(), *l, g.al);
	else e = mc::compare(Fsm(f).Compile<Pire::Scanner>(), *l, g.al);
	if (!e.empty()) mc::violation(what + (slow ? " (slow scanner): " : " (scanner): ") + e);
}

/// graph of an Fsm as seen through its public interface
static std::set<size_t> deadByGraph(const Fsm& f) {
	size_t n = f.Size();
	std::vector<char> a(n), b(n);
	a[f.Initial()] = 1;
	for (size_t s = 0; s < n; ++s) b[s] = f.IsFinal(s);
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t s = 0; s < n; ++s) for (size_t t = 0; t < n; ++t) if (f.Connected(s, t)) {
			if (a[s] && !a[t]) { a[t] = 1; ch = true; }
			if (b[t] && !b[s]) { b[s] = 1; ch = true; }
		}
	}
	std::set<size_t> r;
	for (size_t s = 0; s < n; ++s) if (!a[s] || !b[s]) r.insert(s);
	return r;
}

static void checkDead(const Fsm& f, const std::string& what) {
	if (f.Size() > 40) return;
	auto d = f.DeadStates();
	auto e = deadByGraph(f);
	if (std::set<size_t>(d.begin(), d.end()) != e) {
		std::string m = what + ": dead states {";
		for (auto s : d) m += std::to_string(s) + " ";
		m += "} instead of {";
		for (auto s : e) m += std::to_string(s) + " ";
		mc::violation(m + "}");
	}
}

/// all sequences of up to depth transformations, starting from f with language l
static void explore(const Fsm& f, const L& l, ref::Lang& g, int depth, const std::string& what, int from = 0) {
	for (int t = 0; t < T_N; ++t) {
		Fsm x(f);
		apply(x, t);
		L lx = t == T_SUFFIX ? suffixes(g, l) : applyRef(g, l, t);
		std::string w = what + " " + tname[t];
		checkDead(x, w);
		checkLang(x, lx, g, w, (from + t) % 2);
		if (depth > 1) explore(x, lx, g, depth - 1, w, from + t + 1);
	}
}

static void representations(const Fsm& f, const L& l, ref::Lang& g, int depth, int which = 15) {
	checkDead(f, "as built");
	if (which & 1) explore(f, l, g, depth, "as built:");
	if (which & 2) { Fsm x(f); x.RemoveEpsilons(); checkDead(x, "packed"); explore(x, l, g, depth, "packed:", 1); }
	if (which & 4) { Fsm x(f); x.Determine(); checkDead(x, "determined"); explore(x, l, g, depth, "determined:"); }
	if (which & 8) { Fsm x(f); x.Canonize(); checkDead(x, "canonized"); explore(x, l, g, depth, "canonized:", 1); }
}

template<class A> void rawPhase(const char* name, const A& all, int depth, int which) {
	static ref::Lang g(ref::Alpha::letters("ab"));
	uint64_t n = all.count();
	mc::phase(name, n, [&](uint64_t i) { return all.get(i).text(); }, [&](uint64_t i) {
		raw::Nfa a = all.get(i);
		L l = a.lang(g);
		Fsm f = a.build();
		auto u = a.useful();
		auto d = f.DeadStates();
		for (int s = 0; s < a.n; ++s)
			if ((d.find(s) == d.end()) != (bool)u[s]) mc::violation("state " + std::to_string(s) + " wrongly reported " + (u[s] ? "dead" : "alive"));
		representations(f, l, g, depth, which);
		if (i % 4001 == 11) mc::sample(a.text());
	});
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::map<int, L> memo;
	auto exprPhase = [&](const char* name, Pool& p, size_t from, int depth, int which) {
		memo.clear();
		mc::phase(name, p.nodes.size() - from, [&](uint64_t i) { return p.text(from + i); }, [&](uint64_t i) {
			representations(build(p, from + i), refl(p, from + i, memo), lang(), depth, which);
			if (i % 499 == 3) mc::sample(p.text(from + i));
		});
	};
	Pool full;
	full.nul = {EPS, FALSE_, A, B, STR, ALTS, DOT, BMARK, EMARK};
	full.un = {STAR, NOT, POW0, POW2, POW3, SURR, PREP, APP, ADD_A, ADD_STR, ADD_ALTS, ADD_DOT, ADD_EM};
	full.bin = {CAT, OR, AND};
	full.build(2);
	exprPhase("expr<=2", full, 0, 2, 15);
	full.nodes.clear();
	full.build(3);
	exprPhase("expr=3", full, full.begin[3], th ? 2 : 1, 15);
	rawPhase("nfa 2 states a,eps", raw::AllNfa{2, {'a', raw::EPSI}}, 2, 15);
	rawPhase("nfa 2 states a,b,eps", raw::AllNfa{2, {'a', 'b', raw::EPSI}}, 1, th ? 15 : 1);
	rawPhase("nfa 3 states a", raw::AllNfa{3, {'a'}}, 1, th ? 15 : 9);
	rawPhase("dfa 3 states a,b", raw::AllDfa{3, {'a', 'b'}, th}, 1, th ? 9 : 8);
	rawPhase("nfa 3 states a, few eps", raw::AllNfa{3, {'a', raw::EPSI}, true}, 1, th ? 9 : 1);
	if (th) {
		Pool deep;
		deep.nul = {EPS, A, DOT, BMARK};
		deep.un = {STAR, NOT, SURR, ADD_A, POW2};
		deep.bin = {CAT, OR, AND};
		deep.build(4);
		exprPhase("deep", deep, deep.begin[4], 1, 15);
	}
	return mc::finish();
}
