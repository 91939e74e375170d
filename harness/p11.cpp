// P11: a glued scanner reports exactly the patterns its parts would accept, or is empty when it would be too big.
//
// All ordered pairs, triples, quadruples ... over pools of scanners with pairwise different languages, in every
// nesting, and every size limit; each glued scanner is explored in product with the reference DFAs of its parts.
#include "fsmexpr.h"
#include "kinds.h"
using namespace kinds;

static ref::Lang* G;

struct Part { std::string text; Fsm fsm; L lang; };
/// one program per language
static std::vector<Part> distinct(const fx::Pool& p, size_t limit) {
	std::vector<Part> r;
	std::map<int, L> memo;
	std::set<const ref::Dfa*> seen;
	for (size_t i = 0; i < p.nodes.size() && r.size() < limit; ++i) {
		L l = fx::refl(p, i, memo);
		if (seen.insert(l.get()).second) r.push_back(Part{p.text(i), fx::build(p, i), l});
	}
	return r;
}
template<class Sc> struct Bin { std::vector<Sc> sc; };

template<class Sc> std::string judge(const Sc& sc, const std::vector<L>& ls) {
	if constexpr (IsHF<Sc>::v) {
		if (sc.RegexpsCount() != ls.size()) return "holds " + std::to_string(sc.RegexpsCount()) + " patterns, not " + std::to_string(ls.size());
		return compareHF(sc, ls, G->al);
	} else return compareMulti(sc, ls, G->al);
}
template<class Sc> Sc make(const Part& p) { if constexpr (IsHF<Sc>::v) return compileHF<Sc>(p.fsm); else return compile<Sc>(p.fsm); }

/// all nestings of a range
template<class Sc> void nest(const std::vector<const Sc*>& s, size_t b, size_t e, std::vector<std::pair<std::string, Sc>>& out) {
	if (e - b == 1) { out.push_back({std::to_string(b), *s[b]}); return; }
	for (size_t m = b + 1; m < e; ++m) {
		std::vector<std::pair<std::string, Sc>> l, r;
		nest(s, b, m, l); nest(s, m, e, r);
		for (auto& x : l) for (auto& y : r) out.push_back({"(" + x.first + " " + y.first + ")", Sc::Glue(x.second, y.second)});
	}
}
template<class Sc> void tuple(const std::vector<Part>& parts, const std::vector<Sc>& sc, const std::vector<int>& ix) {
	// -1: a default-constructed scanner
	static const Sc none;
	std::vector<const Sc*> s;
	std::vector<L> ls;
	std::vector<std::string> before;
	for (int i : ix) {
		s.push_back(i < 0 ? &none : &sc[i]);
		if (i >= 0) ls.push_back(parts[i].lang);
		before.push_back(i < 0 ? "" : image(sc[i]));
	}
	std::vector<std::pair<std::string, Sc>> all;
	nest(s, 0, s.size(), all);
	for (auto& x : all) {
		std::string e = judge(x.second, ls);
		if (!e.empty()) mc::violation(std::string(name<Sc>()) + " nested " + x.first + ": " + e);
		if (x.second.Empty() != ls.empty()) mc::violation(std::string(name<Sc>()) + " nested " + x.first + ": empty");
	}
	for (size_t i = 0; i < ix.size(); ++i) if (ix[i] >= 0 && image(sc[ix[i]]) != before[i]) mc::violation(std::string(name<Sc>()) + ": gluing changed a part");
}
/// every size limit
template<class Sc> void limits(const std::vector<Part>& parts, const std::vector<Sc>& sc, int a, int b) {
	Sc whole = Sc::Glue(sc[a], sc[b]);
	size_t n = whole.Size();
	std::string img = image(whole);
	for (size_t lim = 1; lim <= n + 2; ++lim) {
		Sc g = Sc::Glue(sc[a], sc[b], lim);
		++mc::ctx().st.states;
		if (g.Empty()) {
			if (lim >= n) mc::violation(std::string(name<Sc>()) + ": limit " + std::to_string(lim) + " refuses a result of " + std::to_string(n) + " states");
			if (g.RegexpsCount() != 0) mc::violation(std::string(name<Sc>()) + ": failed gluing leaves patterns");
		} else {
			if (lim + 1 < n) mc::violation(std::string(name<Sc>()) + ": limit " + std::to_string(lim) + " gives a result of " + std::to_string(n) + " states");
			if (image(g) != img) mc::violation(std::string(name<Sc>()) + ": limit " + std::to_string(lim) + " changes the result");
		}
	}
}

template<class Sc> void pool(const std::string& what, const std::vector<Part>& parts, size_t nPair, size_t nTriple, size_t nQuad, size_t nQuint, size_t nLim) {
	std::vector<Sc> sc;
	auto init = [&] { if (sc.empty()) for (auto& p : parts) sc.push_back(make<Sc>(p)); };
	auto run = [&](const char* ph, size_t m, int k) {
		if (!m) return;
		m = std::min(m, parts.size());
		uint64_t n = 1;
		for (int i = 0; i < k; ++i) n *= m + 1;
		auto get = [&](uint64_t i) { std::vector<int> v; for (int j = 0; j < k; ++j) { v.push_back((int)(i % (m + 1)) - 1); i /= m + 1; } return v; };
		mc::phase(what + " " + ph, n, [&](uint64_t i) {
			std::string t = std::string(name<Sc>()) + ":";
			for (int j : get(i)) t += " " + (j < 0 ? std::string("none") : parts[j].text);
			return t;
		}, [&](uint64_t i) { init(); tuple(parts, sc, get(i)); });
	};
	run("pairs", nPair, 2); run("triples", nTriple, 3); run("quadruples", nQuad, 4); run("quintuples", nQuint, 5);
	nLim = std::min(nLim, parts.size());
	mc::phase(what + " limits", nLim * nLim, [&](uint64_t i) { return std::string(name<Sc>()) + " limits: " + parts[i / nLim].text + " " + parts[i % nLim].text; },
		[&](uint64_t i) { init(); limits(parts, sc, i / nLim, i % nLim); });
}

/// many parts
template<class Sc> Sc tree(const std::vector<Sc>& s, size_t b, size_t e, int shape) {
	if (e - b == 1) return s[b];
	size_t m = shape == 0 ? e - 1 : shape == 1 ? b + 1 : shape == 2 ? (b + e) / 2 : b + 1 + (e - b) * 2 / 5;
	if (m >= e) m = e - 1;
	Sc l = tree(s, b, m, shape), r = tree(s, m, e, shape);
	return Sc::Glue(l, r);
}
template<class Sc> void many(int n, int shape) {
	// part i: texts whose first letter is one of a window of letters, ending anywhere / at once
	std::string all;
	for (int c = 0; c < n; ++c) all += (char)(c * 5 + 1);
	ref::Lang g(ref::Alpha::letters(all));
	G = &g;
	std::vector<Sc> s;
	std::vector<L> ls;
	for (int i = 0; i < n; ++i) {
		Pire::TVector<Pire::ystring> v;
		L l = g.none();
		for (int k = 0; k < 3; ++k) { char c = all[(i * 2 + k) % n]; v.push_back(Pire::ystring(1, c)); l = g.alt(l, g.str(std::string(1, c))); }
		Fsm f;
		f.AppendStrings(v);
		if (i % 2) { f.Surround(); l = g.cat(g.all(), g.cat(l, g.all())); } else { l = g.alt(l, g.none()); }
		if (IsHF<Sc>::v && i % 2 == 0) { }
		if constexpr (IsHF<Sc>::v) s.push_back(compileHF<Sc>(f)); else s.push_back(compile<Sc>(f));
		ls.push_back(l);
		if (i % 2 == 1) { /* searched for: remembers */ }
	}
	Sc x = tree(s, 0, n, shape);
	if (x.Empty()) { mc::count("too big to glue"); return; }
	std::string e = judge(x, ls);
	if (!e.empty()) mc::violation(std::string(name<Sc>()) + " of " + std::to_string(n) + " parts: " + e);
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	G = &fx::lang();
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR};
	full.build(3);
	std::vector<Part> parts = distinct(full, 1000);
	// varied ones first: by number of states, taken round robin
	{
		std::map<int, std::vector<Part>> by;
		for (auto& p : parts) by[p.lang->n()].push_back(p);
		std::vector<Part> v;
		for (size_t k = 0; v.size() < parts.size(); ++k) for (auto& b : by) if (k < b.second.size()) v.push_back(b.second[k]);
		parts = v;
	}
	std::vector<Part> hf;
	for (auto& p : parts) if (!rightClosed(*G, p.lang) || leftClosed(*G, p.lang)) hf.push_back(p);
	pool<Scanner>("Scanner", parts, th ? 400 : 150, th ? 30 : 16, th ? 9 : 6, th ? 6 : 3, th ? 60 : 30);
	pool<NonrelocScanner>("NonrelocScanner", parts, th ? 150 : 40, 8, 4, 0, 12);
	pool<ScannerNoMask>("ScannerNoMask", parts, th ? 150 : 40, 8, 4, 0, 12);
	pool<NonrelocScannerNoMask>("NonrelocScannerNoMask", parts, th ? 150 : 20, 6, 0, 0, 8);
	pool<HalfFinalScanner>("HalfFinalScanner", hf, th ? 100 : 30, 7, 4, 0, 12);
	pool<NonrelocHalfFinalScanner>("NonrelocHalfFinalScanner", hf, th ? 60 : 14, 5, 0, 0, 6);
	pool<HalfFinalScannerNoMask>("HalfFinalScannerNoMask", hf, th ? 60 : 14, 5, 0, 0, 6);
	pool<NonrelocHalfFinalScannerNoMask>("NonrelocHalfFinalScannerNoMask", hf, th ? 60 : 14, 5, 0, 0, 6);
	// many parts
	int sizes[] = {2, 3, 5, 7, 9, 10, 11, 12};
	mc::phase("many parts", 8 * 4 * 3, [&](uint64_t i) { return std::to_string(sizes[i % 8]) + " parts, shape " + std::to_string(i / 8 % 4) + ", kind " + std::to_string(i / 32); }, [&](uint64_t i) {
		int n = sizes[i % 8], sh = i / 8 % 4;
		switch (i / 32) { case 0: many<Scanner>(n, sh); break; case 1: many<NonrelocScanner>(n, sh); break; case 2: many<HalfFinalScanner>(std::min(n, 9), sh); break; }
	});
	// results beyond every limit
	int big[][2] = {{521, 523}, {307, 311}, {293, 269}, {509, 512}, {511, 513}};
	mc::phase("big", 5 * 3, [&](uint64_t i) { return "counters modulo " + std::to_string(big[i / 3][0]) + " and " + std::to_string(big[i / 3][1]) + ", limit " + (i % 3 == 0 ? "default" : i % 3 == 1 ? "1000000" : "262144"); }, [&](uint64_t i) {
		auto mod = [](int n) { Fsm f; f.Append('a'); f *= n; f.Iterate(); return compile<ScannerNoMask>(f); };
		int p = big[i / 3][0], q = big[i / 3][1];
		ScannerNoMask a = mod(p), b = mod(q);
		size_t lim = i % 3 == 0 ? 0 : i % 3 == 1 ? 1000000 : 262144;
		ScannerNoMask g = ScannerNoMask::Glue(a, b, lim);
		if (g.Empty()) {
			mc::count("too big to glue");
			if ((size_t)(p + 1) * (q + 1) <= (lim ? std::min<size_t>(lim, 200000) : 80000)) mc::violation("gluing refused within the limit");
			return;
		}
		if (g.Size() > (lim ? lim : 80000) + 1) mc::violation("the result exceeds the limit");
		ScannerNoMask::State st;
		g.Initialize(st);
		for (long k = 0; k <= (long)p * q + 2; ++k) {
			auto got = accepted(g, st);
			std::vector<size_t> want;
			if (k % p == 0) want.push_back(0);
			if (k % q == 0) want.push_back(1);
			if (got != want) { mc::violation("text a{" + std::to_string(k) + "}: wrong patterns"); return; }
			Pire::Step(g, st, 'a');
			++mc::ctx().st.states;
		}
		Pire::Step(g, st, 'b');
		if (g.Final(st) || !g.Dead(st)) mc::violation("text with another letter is accepted");
	});
	return mc::finish();
}
