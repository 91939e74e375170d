// P20: half-final counters count occurrences exactly as their mode defines.
//
// Without a counter, with the exact all-matches counter and with the non-overlapping counter, what a step adds to
// the count is a function of the scanner's state: those modes are decided for texts of every length by exhausting
// the product of scanner and reference automaton.  The greedy counter reports at the end mark: all texts up to a
// length.  The simplified counters, which the library says are inexact, are held to never overcount and to count
// something exactly when there is something.  Glued counters are explored in product with their parts.
#include "fsmexpr.h"
#include "kinds.h"
#include <functional>
using namespace kinds;
using Pire::HalfFinalFsm;

static ref::Lang* G;
struct Part { std::string text; Fsm fsm; L lang; };
static std::vector<Part> distinct(const fx::Pool& p, size_t limit) {
	std::vector<Part> r;
	std::map<int, L> memo;
	std::set<const ref::Dfa*> seen;
	for (size_t i = 0; i < p.nodes.size() && r.size() < limit; ++i) {
		L l = fx::refl(p, i, memo);
		if (l == G->none()) continue;
		if (seen.insert(l.get()).second) r.push_back(Part{p.text(i), fx::build(p, i), l});
	}
	return r;
}

enum Mode { GREEDY_SIMPLE, GREEDY, ALL_SIMPLE, ALL, SEPARATE, SEPARATE2, MODES };
static const char* modeName[] = {"simplified greedy", "greedy", "simplified all matches", "all matches", "without intersections", "without intersections, not simplified"};
static HalfFinalFsm counter(const Fsm& f, int mode) {
	HalfFinalFsm h(f);
	switch (mode) {
		case GREEDY_SIMPLE: h.MakeGreedyCounter(true); break;
		case GREEDY: h.MakeGreedyCounter(false); break;
		case ALL_SIMPLE: h.MakeNonGreedyCounter(true, true); break;
		case ALL: h.MakeNonGreedyCounter(true, false); break;
		case SEPARATE: h.MakeNonGreedyCounter(false, true); break;
		case SEPARATE2: h.MakeNonGreedyCounter(false, false); break;
	}
	return h;
}

/// a reference automaton that says what each step adds
struct Adder {
	std::vector<std::vector<std::pair<int, int>>> to;   // state, class -> state, added
	int start = 0, first = 0;                           // first: what the empty text counts
};
static Adder adder(const L& ends, bool restart) {
	Adder a;
	a.start = ends->start;
	a.first = restart ? 0 : ends->fin[ends->start];
	for (int s = 0; s < ends->n(); ++s) {
		a.to.emplace_back();
		for (int c = 0; c < G->al.k; ++c) {
			int t = ends->next(s, c), f = ends->fin[t];
			a.to[s].push_back({f && restart ? ends->start : t, f});
		}
	}
	return a;
}
/// counts every position from the first one on at which a text ends that is in the language and ends with an end mark
static Adder afterMark(const L& l) {
	Adder a;
	a.start = l->start;
	int done = l->n();
	for (int s = 0; s <= done; ++s) {
		a.to.emplace_back();
		for (int c = 0; c < G->al.k; ++c) {
			if (s == done || (G->al.rep[c] == ref::EM && l->fin[l->next(s, c)])) a.to[s].push_back({done, 1});
			else a.to[s].push_back({l->next(s, c), 0});
		}
	}
	return a;
}
template<class Sc> static std::string exact(const Sc& sc, const Adder& a) {
	struct Node { typename Sc::State st; int r; int parent, letter; };
	std::vector<Node> q(1);
	sc.Initialize(q[0].st);
	q[0].r = a.start; q[0].parent = -1;
	if (q[0].st.Result(0) != (size_t)a.first) return "the empty text counts " + std::to_string(q[0].st.Result(0)) + ", not " + std::to_string(a.first);
	std::set<std::pair<size_t, int>> seen{{sc.StateIndex(q[0].st), a.start}};
	for (size_t i = 0; i < q.size(); ++i)
		for (int c = 0; c < G->al.k; ++c) {
			Node n{q[i].st, a.to[q[i].r][c].first, (int)i, G->al.rep[c]};
			Pire::Step(sc, n.st, n.letter);
			++mc::ctx().st.transitions;
			size_t add = n.st.Result(0) - q[i].st.Result(0);
			if (add != (size_t)a.to[q[i].r][c].second) {
				std::vector<int> w{n.letter};
				for (int k = i; q[k].parent >= 0; k = q[k].parent) w.push_back(q[k].letter);
				std::reverse(w.begin(), w.end());
				return "text " + mc::showLetters(w) + ": the last letter adds " + std::to_string(add) + ", not " + std::to_string(a.to[q[i].r][c].second);
			}
			if (seen.insert({sc.StateIndex(n.st), n.r}).second) q.push_back(n);
		}
	mc::ctx().st.states += q.size();
	if (q.size() > 3) ++mc::ctx().st.nontrivial;
	return "";
}
/// what the simplified all-matches counter may count
template<class Sc> static std::string bounded(const Sc& sc, const Adder& a) {
	struct Node { typename Sc::State st; int r; bool some; int parent, letter; };
	std::vector<Node> q(1);
	sc.Initialize(q[0].st);
	q[0].r = a.start; q[0].parent = -1; q[0].some = a.first;
	std::set<std::tuple<size_t, int, bool, bool>> seen{std::make_tuple(sc.StateIndex(q[0].st), a.start, q[0].some, q[0].st.Result(0) > 0)};
	for (size_t i = 0; i < q.size(); ++i)
		for (int c = 0; c < G->al.k; ++c) {
			Node n{q[i].st, a.to[q[i].r][c].first, q[i].some, (int)i, G->al.rep[c]};
			Pire::Step(sc, n.st, n.letter);
			++mc::ctx().st.transitions;
			if (a.to[q[i].r][c].second) n.some = true;
			size_t add = n.st.Result(0) - q[i].st.Result(0);
			if (add > (size_t)a.to[q[i].r][c].second || (n.st.Result(0) > 0) != n.some) {
				std::vector<int> w{n.letter};
				for (int k = i; q[k].parent >= 0; k = q[k].parent) w.push_back(q[k].letter);
				std::reverse(w.begin(), w.end());
				return "text " + mc::showLetters(w) + ": counts " + std::to_string(n.st.Result(0)) + (n.some ? ", there is a match" : ", there is no match") + ", the last letter adds " + std::to_string(add);
			}
			if (seen.insert(std::make_tuple(sc.StateIndex(n.st), n.r, n.some, n.st.Result(0) > 0)).second) q.push_back(n);
		}
	mc::ctx().st.states += q.size();
	return "";
}

/// leftmost, longest, not empty, not overlapping
static size_t greedy(const ref::Dfa& d, const std::vector<char>& live, const std::vector<int>& t, size_t* pending = nullptr) {
	size_t n = 0;
	for (size_t i = 0; i < t.size();) {
		int s = d.start;
		size_t best = 0, look = i;
		for (size_t j = i; j < t.size() && live[s]; ) { s = d.next(s, t[j++]); if (d.fin[s]) best = j; look = j; }
		if (pending) *pending = std::max(*pending, look - std::max(best, i));
		if (best > i) { ++n; i = best; } else ++i;
	}
	return n;
}
template<class Sc> struct Greedy {
	const Sc &exact, &simple;
	const ref::Dfa& d;
	std::vector<char> live;
	bool bad = false;
	void check(const typename Sc::State& e0, const typename Sc::State& s0, const std::vector<int>& t, size_t before) {
		typename Sc::State e = e0, s = s0;
		int em = ref::EM;
		Pire::Step(exact, e, em); Pire::Step(simple, s, em);
		std::vector<int> whole = t;
		whole.push_back(G->al.cls[em]);
		size_t want = before + greedy(d, live, whole);
		++mc::ctx().st.states;
		if (want > 1) ++mc::ctx().st.nontrivial;
		std::vector<int> show;
		for (int c : t) show.push_back(G->al.rep[c]);
		if (e.Result(0) != want && !bad) { bad = true; mc::violation("greedy: text " + mc::showLetters(show) + ": counts " + std::to_string(e.Result(0)) + ", not " + std::to_string(want)); }
		if ((s.Result(0) > want || (s.Result(0) > 0) != (want > 0)) && !bad) { bad = true; mc::violation("simplified greedy: text " + mc::showLetters(show) + ": counts " + std::to_string(s.Result(0)) + " of " + std::to_string(want)); }
	}
	void walk(const typename Sc::State& e, const typename Sc::State& s, std::vector<int>& t, const std::vector<int>& letters, int depth, size_t before) {
		check(e, s, t, before);
		if (!depth || bad) return;
		for (int l : letters) {
			typename Sc::State e2 = e, s2 = s;
			Pire::Step(exact, e2, G->al.rep[l]); Pire::Step(simple, s2, G->al.rep[l]);
			++mc::ctx().st.transitions;
			t.push_back(l);
			walk(e2, s2, t, letters, depth - 1, before);
			t.pop_back();
		}
	}
};

template<class Sc> static void one(const Part& p, const std::vector<int>& letters, int depth) {
	std::string nm = name<Sc>();
	auto say = [&](int mode, const std::string& e) { if (!e.empty()) mc::violation(nm + ", " + modeName[mode] + ": " + e); };
	L suffix = G->cat(G->all(), p.lang);
	bool empty = p.lang->fin[p.lang->start];
	say(ALL, exact(Sc(counter(p.fsm, ALL)), adder(suffix, false)));
	say(ALL_SIMPLE, bounded(Sc(counter(p.fsm, ALL_SIMPLE)), adder(suffix, false)));
	if (!empty) {
		Adder sep = adder(suffix, true);
		say(SEPARATE, exact(Sc(counter(p.fsm, SEPARATE)), sep));
		say(SEPARATE2, exact(Sc(counter(p.fsm, SEPARATE2)), sep));
		Sc e(counter(p.fsm, GREEDY)), s(counter(p.fsm, GREEDY_SIMPLE));
		Greedy<Sc> g{e, s, *p.lang, p.lang->live()};
		typename Sc::State es, ss;
		e.Initialize(es); s.Initialize(ss);
		std::vector<int> t;
		g.walk(es, ss, t, letters, depth, 0);
	}
	// without a counter
	Fsm plain = p.fsm;
	if (rightClosed(*G, p.lang)) {
		L shortest = G->diff(p.lang, G->cat(p.lang, G->cat(G->any(), G->all())));
		std::string err = exact(Sc(plain), adder(G->cat(G->all(), shortest), false));
		if (!err.empty()) mc::violation(nm + ", no counter: " + err);
	}
	Fsm around = p.fsm;
	around.Surround();
	L sur = G->surround(p.lang);
	L shortest = G->diff(sur, G->cat(sur, G->cat(G->any(), G->all())));
	std::string err = exact(Sc(around), adder(G->cat(G->all(), shortest), false));
	if (!err.empty()) mc::violation(nm + ", no counter, surrounded: " + err);
	// only at the end mark
	L closed = G->cat(G->all(), G->cat(p.lang, G->letter(ref::EM)));
	if (!rightClosed(*G, closed)) {
		Fsm f = p.fsm;
		f.PrependAnything();
		f.AppendSpecial(Pire::EndMark);
		err = exact(Sc(f), afterMark(closed));
		if (!err.empty()) mc::violation(nm + ", no counter, tied to the end: " + err);
	}
}

/// glued counters against their parts
template<class Sc> static std::string together(const Sc& g, const std::vector<const Sc*>& parts) {
	if (g.RegexpsCount() != parts.size()) return "holds " + std::to_string(g.RegexpsCount()) + " patterns, not " + std::to_string(parts.size());
	struct Node { typename Sc::State g; std::vector<typename Sc::State> p; int parent, letter; };
	std::vector<Node> q(1);
	auto key = [&](const Node& n) { std::vector<size_t> k{g.StateIndex(n.g)}; for (size_t i = 0; i < parts.size(); ++i) k.push_back(parts[i]->StateIndex(n.p[i])); return k; };
	auto same = [&](const Node& n) -> std::string { for (size_t i = 0; i < parts.size(); ++i) if (n.g.Result(i) != n.p[i].Result(0)) return "part " + std::to_string(i) + " counts " + std::to_string(n.g.Result(i)) + " glued and " + std::to_string(n.p[i].Result(0)) + " alone"; return ""; };
	g.Initialize(q[0].g);
	q[0].p.resize(parts.size());
	for (size_t i = 0; i < parts.size(); ++i) parts[i]->Initialize(q[0].p[i]);
	q[0].parent = -1;
	if (!same(q[0]).empty()) return "empty text: " + same(q[0]);
	std::set<std::vector<size_t>> seen{key(q[0])};
	for (size_t i = 0; i < q.size(); ++i)
		for (int c = 0; c < G->al.k; ++c) {
			Node n = q[i];
			n.parent = i; n.letter = G->al.rep[c];
			Pire::Step(g, n.g, n.letter);
			for (size_t k = 0; k < parts.size(); ++k) Pire::Step(*parts[k], n.p[k], n.letter);
			++mc::ctx().st.transitions;
			std::string e = same(n);
			if (!e.empty()) {
				std::vector<int> w{n.letter};
				for (int k = i; q[k].parent >= 0; k = q[k].parent) w.push_back(q[k].letter);
				std::reverse(w.begin(), w.end());
				return "text " + mc::showLetters(w) + ": " + e;
			}
			if (seen.insert(key(n)).second) q.push_back(n);
		}
	mc::ctx().st.states += q.size();
	++mc::ctx().st.nontrivial;
	return "";
}

template<class Sc> static void glue(const std::string& what, const std::vector<Part>& parts, int m, int k) {
	// part x mode, and scanners without a counter
	uint64_t per = m * 6, n = 1;
	for (int i = 0; i < k; ++i) n *= per;
	auto text = [&](uint64_t j) { return parts[j / 6].text + " " + (j % 6 == 5 ? "no counter" : modeName[j % 6]); };
	auto cache = std::make_shared<std::map<uint64_t, Sc>>();
	auto get = [cache, &parts](uint64_t j) -> const Sc& {
		auto it = cache->find(j);
		if (it == cache->end()) {
			if (j % 6 == 5) { Fsm f = parts[j / 6].fsm; f.Surround(); it = cache->emplace(j, Sc(f)).first; }
			else it = cache->emplace(j, Sc(counter(parts[j / 6].fsm, j % 6))).first;
		}
		return it->second;
	};
	mc::phase(what, n, [&](uint64_t i) { std::string t = std::string(name<Sc>()) + ":"; for (int j = 0; j < k; ++j) { t += (j ? ", " : " ") + text(i % per); i /= per; } return t; }, [&](uint64_t i) {
		std::vector<const Sc*> s;
		for (int j = 0; j < k; ++j) { s.push_back(&get(i % per)); i /= per; }
		Sc g = *s[0];
		for (int j = 1; j < k; ++j) g = Sc::Glue(g, *s[j]);
		if (g.Empty()) { mc::count("too big to glue"); return; }
		std::string e = together(g, s);
		if (!e.empty()) mc::violation(e);
		if (k > 2) {
			Sc r = *s[k - 1];
			for (int j = k - 2; j >= 0; --j) r = Sc::Glue(*s[j], r);
			e = r.Empty() ? "" : together(r, s);
			if (!e.empty()) mc::violation("the other nesting: " + e);
		}
		if (k == 2 && i % 3 == 0) {
			std::istringstream in(image(g));
			Sc l;
			if constexpr (std::is_same<Sc, HalfFinalScanner>::value || std::is_same<Sc, HalfFinalScannerNoMask>::value) { l.Load(&in); e = together(l, s); if (!e.empty()) mc::violation("loaded: " + e); }
		}
	});
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	G = &fx::lang();
	std::vector<int> abc{G->al.cls['a'], G->al.cls['b'], G->al.cls['c']}, some;
	for (int c = 0; c < G->al.k; ++c) if (G->al.rep[c] != ref::EM) some.push_back(c);
	fx::Pool p;
	p.nul = {fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT};
	p.un = {fx::STAR, fx::POW2, fx::ADD_A, fx::ADD_STR, fx::ADD_DOT, fx::ADD_ALTS};
	p.bin = {fx::CAT, fx::OR};
	p.build(th ? 5 : 4);
	std::vector<Part> parts = distinct(p, th ? 2500 : 500);
	mc::phase("programs", parts.size(), [&](uint64_t i) { return parts[i].text; }, [&](uint64_t i) {
		one<HalfFinalScanner>(parts[i], abc, th ? 8 : 7);
		if (th || i % 4 == 0) {
			one<HalfFinalScannerNoMask>(parts[i], abc, 5);
			one<NonrelocHalfFinalScanner>(parts[i], abc, 5);
			one<NonrelocHalfFinalScannerNoMask>(parts[i], abc, 5);
		}
	});
	fx::Pool m;
	m.nul = {fx::A, fx::STR, fx::DOT, fx::BMARK};
	m.un = {fx::STAR, fx::POW2, fx::ADD_A, fx::ADD_ALTS};
	m.bin = {fx::CAT, fx::OR};
	m.build(th ? 4 : 3);
	std::vector<Part> marks = distinct(m, th ? 600 : 120);
	mc::phase("programs with marks", marks.size(), [&](uint64_t i) { return marks[i].text; }, [&](uint64_t i) { one<HalfFinalScanner>(marks[i], some, th ? 6 : 5); });
	// patterns with alternatives of different lengths
	static const char* pats[] = {"a(bb)?|b", "ab+c|b", "a.+c|b", "aabc|a", "abc|b|c", "ab(ab)?c?", "a[bc]?b|c", "(ab|ba)+", "a(b.c)?|b|c", "a+b|b+a", "ab?c?|bb|cc", "a(bc|cb)?|b(a|c)?", "(aa|b)c?|a", "aab?|ab|ba+"};
	auto parse = [&](const std::string& pat) {
		Pire::Lexer lex(pat.data(), pat.data() + pat.size());
		Part q;
		q.text = pat; q.fsm = lex.Parse();
		// language: read from the determined automaton, whose construction P04 decides
		Pire::SimpleScanner sc = kinds::compile<Pire::SimpleScanner>(q.fsm);
		ref::Dfa d; d.k = G->al.k; d.start = 0;
		std::map<size_t, int> id;
		std::vector<Pire::SimpleScanner::State> st(1);
		sc.Initialize(st[0]);
		id[sc.StateIndex(st[0])] = 0;
		for (size_t k = 0; k < st.size(); ++k) {
			d.fin.push_back(sc.Final(st[k]));
			for (int c = 0; c < G->al.k; ++c) {
				auto n = st[k];
				Pire::Step(sc, n, G->al.rep[c]);
				auto it = id.insert({sc.StateIndex(n), (int)st.size()}).first;
				if (it->second == (int)st.size()) st.push_back(n);
				d.tr.push_back(it->second);
			}
		}
		q.lang = G->mk(d);
		return q;
	};
	mc::phase("patterns", sizeof pats / sizeof *pats, [&](uint64_t i) { return pats[i]; }, [&](uint64_t i) {
		Part q = parse(pats[i]);
		one<HalfFinalScanner>(q, abc, th ? 11 : 9);
		// several texts in one state: every text counts on its own
		HalfFinalScanner e(counter(q.fsm, GREEDY)), s(counter(q.fsm, GREEDY_SIMPLE));
		Greedy<HalfFinalScanner> g{e, s, *q.lang, q.lang->live()};
		for (const char* first : {"", "ab", "abb", "abc", "bca", "aab"}) {
			HalfFinalScanner::State es, ss;
			e.Initialize(es); s.Initialize(ss);
			std::vector<int> t;
			for (const char* c = first; *c; ++c) { t.push_back(G->al.cls[(unsigned char)*c]); Pire::Step(e, es, (unsigned char)*c); Pire::Step(s, ss, (unsigned char)*c); }
			Pire::Step(e, es, Pire::EndMark); Pire::Step(s, ss, Pire::EndMark);
			t.push_back(G->al.cls[ref::EM]);
			size_t before = greedy(*q.lang, q.lang->live(), t);
			if (es.Result(0) != before) { mc::violation(std::string("first text ") + first); continue; }
			t.clear();
			g.walk(es, ss, t, abc, 5, before);
		}
	});
	// the greedy counter looks ahead up to ten matches
	// all sets of up to three alternatives out of a list
	static const char* words[] = {"a", "b", "ab", "ba", "bb", "abc", "aab", "abb", "bca", "abbc", "abca", "aaab", "a+", "b+", "ab+", "b+c", "ab+c", "a+bc", "ab*a", "a.c", "b..a", "(ab)+", "(ab)+c", "a(ba)*c"};
	static const int W = sizeof words / sizeof *words;
	std::vector<std::string> sets;
	for (int x = 0; x < W; ++x) for (int y = x + 1; y < W; ++y) {
		sets.push_back(std::string(words[x]) + "|" + words[y]);
		for (int z = y + 1; z < W; ++z) sets.push_back(std::string(words[x]) + "|" + words[y] + "|" + words[z]);
	}
	mc::phase("alternatives", sets.size(), [&](uint64_t i) { return sets[i]; }, [&](uint64_t i) { one<HalfFinalScanner>(parse(sets[i]), abc, th ? 9 : 8); });
	mc::phase("lookahead", 60, [&](uint64_t i) { return "ab+c|b: a, " + std::to_string(i / 4) + " times b, variant " + std::to_string(i % 4); }, [&](uint64_t i) {
		const char* pat = "ab+c|b";
		Pire::Lexer lex(pat, pat + strlen(pat));
		HalfFinalScanner e(counter(lex.Parse(), GREEDY));
		int k = i / 4;
		std::string t = "a" + std::string(k, 'b') + (i % 2 ? "c" : "") + (i / 2 % 2 ? "xb" : "");
		HalfFinalScanner::State st;
		e.Initialize(st);
		for (unsigned char c : t) Pire::Step(e, st, c);
		Pire::Step(e, st, Pire::EndMark);
		size_t want = (i % 2 && k > 0 ? 1 : k) + (i / 2 % 2);
		++mc::ctx().st.states;
		if (k <= 10 ? st.Result(0) != want : st.Result(0) > want || (st.Result(0) == 0) != (want == 0)) mc::violation("text " + t + ": counts " + std::to_string(st.Result(0)) + ", not " + std::to_string(want));
	});
	std::vector<Part> few;
	for (size_t i = 0; i < parts.size() && few.size() < 20; i += 1 + i / 4) if (!parts[i].lang->fin[parts[i].lang->start]) few.push_back(parts[i]);
	glue<HalfFinalScanner>("pairs", few, th ? 16 : 9, 2);
	glue<HalfFinalScannerNoMask>("pairs without masks", few, th ? 10 : 4, 2);
	glue<NonrelocHalfFinalScanner>("pairs not relocatable", few, th ? 10 : 4, 2);
	glue<NonrelocHalfFinalScannerNoMask>("pairs not relocatable without masks", few, th ? 10 : 3, 2);
	glue<HalfFinalScanner>("triples", few, th ? 4 : 2, 3);
	return mc::finish();
}
