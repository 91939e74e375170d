// P19: glued counting scanners count each part as if it ran alone.
//
// Each glued counter is explored in product with its parts: every reachable combination of automaton states and
// small counts, by all letters, comparing every part's result after each step; plus all texts up to a length.
#include "fsmexpr.h"
#include "kinds.h"
#include <pire/extra.h>
#include <array>

using ref::L;
using Pire::Fsm; using Pire::CountingScanner; using Pire::AdvancedCountingScanner; using Pire::NoGlueLimitCountingScanner;

template<class Sc> const char* cname();
template<> const char* cname<CountingScanner>() { return "CountingScanner"; }
template<> const char* cname<AdvancedCountingScanner>() { return "AdvancedCountingScanner"; }
template<> const char* cname<NoGlueLimitCountingScanner>() { return "NoGlueLimitCountingScanner"; }

static std::vector<int> letters;   // one per class
struct PartDef { const char* re; const char* sep; };
static const PartDef defs[] = {
	{"a", ".*"}, {"b", ".*"}, {"ab", ".*"}, {"a+", ".*"}, {"a", ""}, {"b", "a"}, {"[ab]", "c*"}, {"ab?", "c"},
	{"(ab)+", "c?"}, {"a.b", ".*"}, {"aba", ""}, {"b+", "[ac]"}, {"^a", "(.|^|$)*"}, {"b$", "(.|^|$)*"}, {"a|bc", "b*"}, {"c", "(ab)*"},
	{".", ".*"}, {"[^a]", ""}, {"cc", "a|b"}, {"a{2}", "b+"}, {"c.", "a*"}, {"bac", ".{1,2}"}, {"^", ".*"}, {"b|ab|cab", "c"},
};
const int NDEF = sizeof defs / sizeof *defs;
static Fsm parse(const char* p) { Pire::Lexer l(p, p + strlen(p)); return l.Parse(); }
template<class Sc> static const Sc& part(int i) {
	static std::map<int, Sc> m;
	auto it = m.find(i);
	if (it == m.end()) it = m.emplace(i, Sc(parse(defs[i].re), parse(defs[i].sep))).first;
	return it->second;
}

template<class Sc> struct Run {
	typename Sc::State g;
	std::vector<typename Sc::State> p;
};
template<class Sc> static std::string results(const Sc& g, const Run<Sc>& x) {
	for (size_t k = 0; k < x.p.size(); ++k)
		if (x.g.Result(k) != x.p[k].Result(0)) return "part " + std::to_string(k) + " counts " + std::to_string(x.g.Result(k)) + " glued and " + std::to_string(x.p[k].Result(0)) + " alone";
	return "";
}
/// product exploration
template<class Sc> static std::string explore(const Sc& g, const std::vector<const Sc*>& parts, size_t cap, size_t maxNodes, int depth) {
	if (g.RegexpsCount() != parts.size()) return "holds " + std::to_string(g.RegexpsCount()) + " patterns, not " + std::to_string(parts.size());
	if (g.Empty()) return "empty";
	struct Node { Run<Sc> r; int parent; int letter; };
	std::vector<Node> q(1);
	auto start = [&](Run<Sc>& x) { g.Initialize(x.g); x.p.resize(parts.size()); for (size_t k = 0; k < parts.size(); ++k) parts[k]->Initialize(x.p[k]); };
	auto step = [&](Run<Sc>& x, int l) { Pire::Step(g, x.g, l); for (size_t k = 0; k < parts.size(); ++k) Pire::Step(*parts[k], x.p[k], l); ++mc::ctx().st.transitions; };
	auto key = [&](const Run<Sc>& x) {
		std::vector<size_t> k{g.StateIndex(x.g)};
		for (size_t i = 0; i < parts.size(); ++i) { k.push_back(parts[i]->StateIndex(x.p[i])); k.push_back(std::min(x.p[i].Result(0), cap)); }
		return k;
	};
	std::set<std::vector<size_t>> seen;
	start(q[0].r); q[0].parent = -1;
	seen.insert(key(q[0].r));
	auto word = [&](int i, int last) { std::vector<int> w{last}; for (; q[i].parent >= 0; i = q[i].parent) w.push_back(q[i].letter); std::reverse(w.begin(), w.end()); return mc::showLetters(w); };
	for (size_t i = 0; i < q.size(); ++i) {
		for (int l : letters) {
			Node n{q[i].r, (int)i, l};
			step(n.r, l);
			std::string e = results(g, n.r);
			if (!e.empty()) return "text " + word(i, l) + ": " + e;
			if (seen.size() < maxNodes && seen.insert(key(n.r)).second) q.push_back(n);
		}
	}
	if (seen.size() >= maxNodes) mc::count("explorations cut at the state bound");
	mc::ctx().st.states += q.size();
	if (q.size() > 4) ++mc::ctx().st.nontrivial;
	// all texts up to a length
	std::vector<int> w;
	std::string err;
	std::function<void(const Run<Sc>&, int)> rec = [&](const Run<Sc>& x, int d) {
		if (!d || !err.empty()) return;
		for (int l : letters) {
			Run<Sc> y = x;
			step(y, l);
			w.push_back(l);
			std::string e = results(g, y);
			if (!e.empty() && err.empty()) err = "text " + mc::showLetters(w) + ": " + e;
			rec(y, d - 1);
			w.pop_back();
		}
	};
	rec(q[0].r, depth);
	return err;
}
template<class Sc> static std::string image(const Sc& sc) { std::ostringstream o; sc.Save(&o); return o.str(); }

template<class Sc> static void nest(const std::vector<const Sc*>& s, size_t b, size_t e, std::vector<std::pair<std::string, Sc>>& out) {
	if (e - b == 1) { out.push_back({std::to_string(b), *s[b]}); return; }
	for (size_t m = b + 1; m < e; ++m) {
		std::vector<std::pair<std::string, Sc>> l, r;
		nest(s, b, m, l); nest(s, m, e, r);
		for (auto& x : l) for (auto& y : r) out.push_back({"(" + x.first + " " + y.first + ")", Sc::Glue(x.second, y.second)});
	}
}
template<class Sc> static void tuple(const std::vector<int>& ix, size_t maxNodes, int depth) {
	static const Sc none;
	std::vector<const Sc*> s, real;
	std::vector<std::string> before;
	for (int i : ix) { s.push_back(i < 0 ? &none : &part<Sc>(i)); if (i >= 0) { real.push_back(s.back()); before.push_back(image(*s.back())); } }
	std::vector<std::pair<std::string, Sc>> all;
	nest(s, 0, s.size(), all);
	for (auto& x : all) {
		if (real.empty()) { if (x.second.RegexpsCount() != 0) mc::violation("gluing nothing gives patterns"); continue; }
		std::string e = explore(x.second, real, 3, maxNodes, depth);
		if (!e.empty()) mc::violation("nested " + x.first + ": " + e);
	}
	size_t k = 0;
	for (auto p : real) if (image(*p) != before[k++]) mc::violation("gluing changed a part");
}
template<class Sc> static void limits(int a, int b) {
	const Sc &x = part<Sc>(a), &y = part<Sc>(b);
	Sc whole = Sc::Glue(x, y);
	size_t n = whole.Size();
	std::string img = image(whole);
	for (size_t lim = 1; lim <= n + 2; ++lim) {
		Sc g = Sc::Glue(x, y, lim);
		++mc::ctx().st.states;
		if (g.Empty()) {
			if (lim >= n) mc::violation("limit " + std::to_string(lim) + " refuses a result of " + std::to_string(n) + " states");
			if (g.RegexpsCount() != 0) mc::violation("failed gluing leaves patterns");
		} else {
			if (lim + 1 < n) mc::violation("limit " + std::to_string(lim) + " gives a result of " + std::to_string(n) + " states");
			if (image(g) != img) mc::violation("limit " + std::to_string(lim) + " changes the result");
		}
	}
}
/// n parts in some shape of gluing
template<class Sc> static Sc tree(const std::vector<const Sc*>& s, size_t b, size_t e, int shape) {
	if (e - b == 1) return *s[b];
	size_t m = shape == 0 ? e - 1 : shape == 1 ? b + 1 : (b + e) / 2;
	Sc l = tree(s, b, m, shape), r = tree(s, m, e, shape);
	return Sc::Glue(l, r);
}
template<class Sc> static void many(int n, int shape, int sel) {
	// parts with few states, so that many can be glued
	static const int small[] = {0, 1, 4, 17, 5, 12, 15, 16};
	static const int mixed[] = {0, 1, 2, 4, 3, 6};
	static const int two[] = {1, 0};
	std::vector<const Sc*> s;
	for (int i = 0; i < n; ++i) s.push_back(&part<Sc>(sel == 0 ? small[i % 8] : sel == 1 ? mixed[i % 6] : two[i % 2]));
	Sc g = tree(s, 0, n, shape);
	bool limited = !std::is_same<Sc, NoGlueLimitCountingScanner>::value;
	if (limited && n > 16) {
		// beyond the limit some gluing on the way has to fail: the last one, if the parts hold more than 16 together
		Sc l = tree(s, 0, 16, 2), one = *s[16];
		if (l.RegexpsCount() != 16) mc::violation("16 parts: holds " + std::to_string(l.RegexpsCount()));
		Sc over = Sc::Glue(l, one), over2 = Sc::Glue(one, l);
		if (!over.Empty() || over.RegexpsCount() != 0 || !over2.Empty()) mc::violation("17 parts are not refused");
		Sc half = tree(s, 0, n / 2, 2), rest = tree(s, n / 2, n, 2);
		if (n / 2 <= 16 && n - n / 2 <= 16) { Sc both = Sc::Glue(half, rest); if (!both.Empty()) mc::violation(std::to_string(n) + " parts are not refused"); }
		++mc::ctx().st.states;
		return;
	}
	std::string e = explore(g, s, 2, 4000, 3);
	if (!e.empty()) mc::violation(e);
}
/// parts and results that were saved and loaded or mapped
template<class Sc> static void reloaded(int a, int b) {
	const Sc &x = part<Sc>(a), &y = part<Sc>(b);
	auto load = [](const Sc& s) { std::istringstream i(image(s)); Sc r; r.Load(&i); return r; };
	std::vector<std::vector<size_t>> keep;
	auto map = [&](const Sc& s) { std::string m = image(s); keep.emplace_back(m.size() / sizeof(size_t) + 2); memcpy(keep.back().data(), m.data(), m.size()); Sc r; r.Mmap(keep.back().data(), m.size()); return r; };
	keep.reserve(16);
	std::vector<std::pair<const char*, Sc>> gs;
	gs.push_back({"both loaded", Sc::Glue(load(x), load(y))});
	gs.push_back({"one mapped", Sc::Glue(map(x), y)});
	gs.push_back({"result loaded", load(Sc::Glue(x, y))});
	gs.push_back({"result mapped", map(Sc::Glue(x, y))});
	gs.push_back({"result loaded and glued", Sc::Glue(load(Sc::Glue(x, y)), x)});
	gs.push_back({"result mapped and glued", Sc::Glue(y, map(Sc::Glue(x, y)))});
	for (size_t i = 0; i < gs.size(); ++i) {
		std::vector<const Sc*> s{&x, &y};
		if (i == 4) s.push_back(&x);
		if (i == 5) s.insert(s.begin(), &y);
		std::string e = explore(gs[i].second, s, 3, 3000, 3);
		if (!e.empty()) mc::violation(std::string(gs[i].first) + ": " + e);
	}
}

/// limit-free counters that were saved as advanced ones, alone or already glued
static void fromAdvanced(int a, int b) {
	typedef NoGlueLimitCountingScanner N;
	typedef AdvancedCountingScanner A;
	std::vector<std::vector<size_t>> keep;
	keep.reserve(16);
	auto load = [](const A& s) { std::istringstream i(image(s)); N r; r.Load(&i); return r; };
	auto map = [&](const A& s) { std::string m = image(s); keep.emplace_back(m.size() / sizeof(size_t) + 2); memcpy(keep.back().data(), m.data(), m.size()); N r; r.Mmap(keep.back().data(), m.size()); return r; };
	const A &x = part<A>(a), &y = part<A>(b);
	const N &nx = part<N>(a), &ny = part<N>(b);
	A xy = A::Glue(x, y);
	auto check = [&](const char* what, const N& g, const std::vector<const N*>& s) { std::string e = explore(g, s, 3, 3000, 3); if (!e.empty()) mc::violation(std::string(what) + ": " + e); };
	check("both loaded", N::Glue(load(x), load(y)), {&nx, &ny});
	check("both mapped", N::Glue(map(x), map(y)), {&nx, &ny});
	check("loaded and own", N::Glue(load(x), ny), {&nx, &ny});
	check("own and mapped", N::Glue(nx, map(y)), {&nx, &ny});
	check("glued and loaded", load(xy), {&nx, &ny});
	check("glued, loaded and own", N::Glue(load(xy), nx), {&nx, &ny, &nx});
	check("own and glued, mapped", N::Glue(ny, map(xy)), {&ny, &nx, &ny});
	check("twice glued and loaded", N::Glue(load(xy), load(A::Glue(y, x))), {&nx, &ny, &ny, &nx});
	check("glued with an empty one", N::Glue(N(), load(xy)), {&nx, &ny});
}

static std::string list(const std::vector<int>& v) { std::string t; for (int i : v) t += i < 0 ? " none" : std::string(" ") + defs[i].re + "|" + defs[i].sep; return t; }

template<class Sc> static void kind(bool th) {
	std::string nm = cname<Sc>();
	auto tuples = [&](const char* ph, std::vector<int> pool, int k, size_t nodes, int depth) {
		uint64_t n = 1;
		for (int i = 0; i < k; ++i) n *= pool.size();
		auto get = [=](uint64_t i) { std::vector<int> v; for (int j = 0; j < k; ++j) { v.push_back(pool[i % pool.size()]); i /= pool.size(); } return v; };
		mc::phase(nm + " " + ph, n, [=](uint64_t i) { return nm + list(get(i)); }, [=](uint64_t i) { tuple<Sc>(get(i), nodes, depth); });
	};
	std::vector<int> all{-1};
	for (int i = 0; i < NDEF; ++i) all.push_back(i);
	tuples("pairs", all, 2, 20000, th ? 6 : 5);
	tuples("triples", th ? all : std::vector<int>{-1, 0, 1, 2, 3, 5, 7, 9, 11, 12, 14}, 3, 5000, 3);
	tuples("quadruples", th ? std::vector<int>{-1, 0, 2, 3, 4, 7, 8, 12} : std::vector<int>{-1, 0, 2, 4, 7, 12}, 4, 3000, 2);
	tuples("quintuples", th ? std::vector<int>{0, 2, 4, 7, 12} : std::vector<int>{0, 4, 7}, 5, 2000, 2);
	int nl = th ? NDEF : 16;
	mc::phase(nm + " limits", nl * nl, [=](uint64_t i) { return nm + " limits" + list({(int)i / nl, (int)i % nl}); }, [=](uint64_t i) { limits<Sc>(i / nl, i % nl); });
	int top = std::is_same<Sc, NoGlueLimitCountingScanner>::value ? (th ? 70 : 40) : 24;
	mc::phase(nm + " many", (top - 4) * 9, [=](uint64_t i) { return nm + ": " + std::to_string(5 + i / 9) + " parts, shape " + std::to_string(i % 3) + ", selection " + std::to_string(i / 3 % 3); },
		[=](uint64_t i) { many<Sc>(5 + i / 9, i % 3, i / 3 % 3); });
	int nr = th ? NDEF : 14;
	mc::phase(nm + " reloaded", nr * nr, [=](uint64_t i) { return nm + " reloaded" + list({(int)i / nr, (int)i % nr}); }, [=](uint64_t i) { reloaded<Sc>(i / nr, i % nr); });
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	ref::Alpha al = ref::Alpha::letters("abc");
	letters = al.rep;
	kind<CountingScanner>(th);
	kind<AdvancedCountingScanner>(th);
	kind<NoGlueLimitCountingScanner>(th);
	int nr = th ? NDEF : 14;
	mc::phase("from advanced", nr * nr, [=](uint64_t i) { return "saved as advanced" + list({(int)i / nr, (int)i % nr}); }, [=](uint64_t i) { fromAdvanced(i / nr, i % nr); });
	return mc::finish();
}
