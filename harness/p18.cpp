// P18: counting scanners count the separated occurrences their definition prescribes.
//
// Every pair of a pattern and a separator out of pools of small construction programs with pairwise different
// languages, on all texts up to a length.  The reference works on the minimal DFAs of pattern and separator:
//   M  the largest number of non-empty, non-overlapping occurrences, consecutive ones joined by a separator
//   G  the same where every occurrence is the longest one from where it begins
// and it follows every partial chain of the text, so as to know whether chains of different lengths compete.
#include "fsmexpr.h"
#include "kinds.h"
#include <pire/extra.h>
#include <array>

using ref::L;
using Pire::Fsm; using Pire::CountingScanner; using Pire::AdvancedCountingScanner; using Pire::NoGlueLimitCountingScanner;

static ref::Lang* G;

struct Part { std::string text; Fsm fsm; L lang; };
static std::vector<Part> distinct(const fx::Pool& p, size_t limit) {
	std::vector<Part> r;
	std::map<int, L> memo;
	std::set<const ref::Dfa*> seen;
	for (size_t i = 0; i < p.nodes.size() && r.size() < limit; ++i) {
		L l = fx::refl(p, i, memo);
		if (seen.insert(l.get()).second) r.push_back(Part{p.text(i), fx::build(p, i), l});
	}
	return r;
}

struct Ref {
	const ref::Dfa &r, &q;
	std::vector<char> rl, ql;
	Ref(const ref::Dfa& r_, const ref::Dfa& q_): r(r_), q(q_), rl(r_.live()), ql(q_.live()) {}

	struct Answer { int M = 0, G = 0; bool calm = true, apart = true; };
	// keys of partial chains: (mode, DFA state): 0 inside an occurrence, 1 at or after the end of one, 2 in a separator
	// value: occurrences so far, and where the chain began (negated, so that of equal ones the earliest counts)
	typedef std::map<std::pair<int, int>, std::pair<int, int>> Chains;
	Chains start() const { Chains c; if (rl[r.start]) c[{0, r.start}] = {0, 0}; return c; }
	/// pos: the position behind letter l
	Chains step(const Chains& c, int l, int pos, bool& calm) const {
		Chains n;
		auto add = [&](int mode, int s, std::pair<int, int> k) {
			if (!(mode == 2 ? ql : rl)[s]) return;
			auto it = n.insert({{mode, s}, k}).first;
			it->second = std::max(it->second, k);
		};
		for (auto& e : c) {
			int mode = e.first.first;
			auto k = e.second;
			if (mode == 2) {
				int s = q.next(e.first.second, l);
				add(2, s, k);
				if (q.fin[s]) add(0, r.start, k);
			} else {
				int s = r.next(e.first.second, l);
				if (r.fin[s]) {
					auto k2 = k;
					if (!mode) ++k2.first;
					add(1, s, k2); add(2, q.start, k2);
					if (q.fin[q.start]) add(0, r.start, k2);
				} else add(mode, s, k);
			}
		}
		add(0, r.start, {0, -pos});
		std::pair<int, int> mx{0, 0};
		for (auto& e : n) mx = std::max(mx, e.second);
		for (auto& e : n) if (e.second.first > 0 && e.second != mx) calm = false;
		return n;
	}
	Answer judge(const std::vector<int>& t) const {
		Answer a;
		int n = t.size();
		bool mr[16][16], mq[16][16]; int ext[16];
		for (int i = 0; i <= n; ++i) {
			int s = r.start, u = q.start;
			ext[i] = i;
			for (int j = i; j <= n; ++j) {
				mr[i][j] = j > i && r.fin[s]; mq[i][j] = q.fin[u];
				if (rl[s]) ext[i] = j;
				if (j < n) { s = r.next(s, t[j]); u = q.next(u, t[j]); }
			}
		}
		int best[16] = {0}, bg[16] = {0}, lg[16];
		for (int i = 0; i <= n; ++i) { lg[i] = -1; for (int j = i + 1; j <= n; ++j) if (mr[i][j]) lg[i] = j; }
		for (int j = 1; j <= n; ++j) for (int i = 0; i < j; ++i) if (mr[i][j]) {
			int b = 1, g = 1;
			for (int k = 0; k <= i; ++k) if (mq[k][i]) { if (best[k]) b = std::max(b, best[k] + 1); if (bg[k]) g = std::max(g, bg[k] + 1); }
			best[j] = std::max(best[j], b); a.M = std::max(a.M, b);
			if (lg[i] == j) { bg[j] = std::max(bg[j], g); a.G = std::max(a.G, g); }
		}
		// are the occurrences that no other one contains disjoint, also from what follows them and could have made them longer?
		std::vector<std::pair<int, int>> mx;
		for (int i = 0; i <= n; ++i) if (lg[i] >= 0) {
			bool in = false;
			for (int k = 0; k < i; ++k) if (lg[k] >= lg[i]) in = true;
			if (!in) mx.push_back({i, lg[i]});
		}
		for (size_t i = 1; i < mx.size(); ++i) if (mx[i].first < ext[mx[i - 1].first]) a.apart = false;
		if ((int)mx.size() != a.G) a.apart = false;      // skipping one occurrence would allow more of them
		return a;
	}
};

struct Runs {
	const CountingScanner& C; const AdvancedCountingScanner& A; const NoGlueLimitCountingScanner& N;
	CountingScanner::State c; AdvancedCountingScanner::State a; NoGlueLimitCountingScanner::State n;
	void start() { C.Initialize(c); A.Initialize(a); N.Initialize(n); }
	void step(int l) { Pire::Step(C, c, l); Pire::Step(A, a, l); Pire::Step(N, n, l); }
};

static std::string showText(const std::vector<int>& t) { std::vector<int> l; for (int x : t) l.push_back(G->al.rep[x]); return mc::showLetters(l); }

static bool bad;
static void judge(const Ref& rf, bool universal, bool simple, const Runs& x, const std::vector<int>& t, bool calm) {
	Ref::Answer w = rf.judge(t);
	++mc::ctx().st.states;
	CountingScanner::State ended = x.c;
	Pire::Step(x.C, ended, ref::EM);
	int a = x.a.Result(0), n = x.n.Result(0), c = ended.Result(0);
	auto fail = [&](const std::string& m) { if (!bad) mc::violation("text " + showText(t) + ": " + m); bad = true; };
	auto num = [](const char* k, int v) { return std::string(" ") + k + "=" + std::to_string(v); };
	std::string vals = num("advanced", a) + num("nolimit", n) + num("counting", c) + num("most", w.M) + num("longest", w.G);
	if (a != n) fail("the exact counters disagree:" + vals);
	if (rf.r.fin[rf.r.start]) return;   // empty occurrences: what their number is, is not defined
	if (a > w.M || c > w.M) fail("more occurrences than there are:" + vals);
	if ((a > 0) != (w.M > 0)) fail("an occurrence is missed:" + vals);
	if (calm) {
		if (!simple && a < std::min(w.G, w.M)) fail("too few occurrences:" + vals);
		if (w.M > 1) mc::count("texts with several occurrences and no competing chains");
	} else mc::count("texts with competing chains");
	if (universal && w.apart && c != w.G) fail("counting scanner with a separator that matches everything:" + vals);
	if (w.M > 1) ++mc::ctx().st.nontrivial;
}
static void walk(const Ref& ref, bool universal, bool simple, const Runs& x, std::vector<int>& t, const Ref::Chains& ch, bool calm, const std::vector<int>& letters, int depth) {
	judge(ref, universal, simple, x, t, calm);
	if (!depth || bad) return;
	for (int l : letters) {
		Runs y = x;
		y.step(G->al.rep[l]);
		++mc::ctx().st.transitions;
		bool cm = calm;
		Ref::Chains n = ref.step(ch, l, t.size() + 1, cm);
		t.push_back(l);
		walk(ref, universal, simple, y, t, n, cm, letters, depth - 1);
		t.pop_back();
	}
}

/// every reachable pair of states of the two exact counters, by the shortest text, with all short continuations
static void pairs(const AdvancedCountingScanner& A, const NoGlueLimitCountingScanner& N) {
	struct Node { AdvancedCountingScanner::State a; NoGlueLimitCountingScanner::State n; };
	std::set<std::array<size_t, 3>> seen;
	std::vector<Node> q(1);
	A.Initialize(q[0].a); N.Initialize(q[0].n);
	seen.insert({A.StateIndex(q[0].a), N.StateIndex(q[0].n), 0});
	for (size_t i = 0; i < q.size() && i < 60000; ++i) {
		for (int c = 0; c < G->al.k; ++c) {
			Node x = q[i];
			Pire::Step(A, x.a, G->al.rep[c]); Pire::Step(N, x.n, G->al.rep[c]);
			++mc::ctx().st.transitions;
			if (x.a.Result(0) != x.n.Result(0)) { if (!bad) mc::violation("the exact counters disagree: " + std::to_string(x.a.Result(0)) + " and " + std::to_string(x.n.Result(0))); bad = true; return; }
			if (seen.insert({A.StateIndex(x.a), N.StateIndex(x.n), std::min<size_t>(x.a.Result(0), 4)}).second) q.push_back(x);
		}
	}
	mc::ctx().st.states += q.size();
}

template<class Sc> static void reuse(const Sc& sc, const std::vector<std::string>& texts, const char* name) {
	// chunks and state reuse: all texts as bytes, every split in two, one state object for all of them
	typename Sc::State once;
	for (auto& t : texts) {
		typename Sc::State s;
		sc.Initialize(s);
		for (unsigned char ch : t) Pire::Step(sc, s, ch);
		size_t want = s.Result(0);
		for (size_t cut = 0; cut <= t.size(); ++cut) {
			sc.Initialize(once);
			Pire::Run(sc, once, t.data(), t.data() + cut);
			typename Sc::State copy = once;
			Pire::Run(sc, copy, t.data() + cut, t.data() + t.size());
			Pire::Run(sc, once, t.data() + cut, t.data() + t.size());
			++mc::ctx().st.replays;
			if (once.Result(0) != want || copy.Result(0) != want) { mc::violation(std::string(name) + ": text " + mc::show(t) + " cut at " + std::to_string(cut) + ": " + std::to_string(once.Result(0)) + " instead of " + std::to_string(want)); return; }
		}
	}
}

static void pair(const Part& re, const Part& sep, const std::vector<int>& letters, int depth) {
	bad = false;
	bool simple = false, simple2 = false;
	const Fsm r = re.fsm, s = sep.fsm;
	CountingScanner C(r, s);
	AdvancedCountingScanner A(r, s, &simple);
	NoGlueLimitCountingScanner N(r, s, &simple2);
	if (simple != simple2) mc::violation("one exact counter is simplified and the other is not");
	if (simple) mc::count("simplified counters");
	Ref ref(*re.lang, *sep.lang);
	Runs x{C, A, N};
	x.start();
	std::vector<int> t;
	// a separator that matches every text of the letters explored
	ref::L u = G->none();
	{ std::set<int> s(letters.begin(), letters.end()); u = G->star(G->set(s)); }
	bool universal = letters.size() == 3 && G->diff(u, sep.lang) == G->none();   // an end mark is appended: no marks in the text
	walk(ref, universal, simple, x, t, ref.start(), true, letters, depth);
	if (!bad) pairs(A, N);
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	G = &fx::lang();
	std::vector<int> abc{G->al.cls['a'], G->al.cls['b'], G->al.cls['c']}, all;
	for (int c = 0; c < G->al.k; ++c) all.push_back(c);
	fx::Pool rp, sp;
	rp.nul = {fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT};
	rp.un = {fx::STAR, fx::POW2, fx::ADD_A, fx::ADD_STR, fx::ADD_DOT};
	rp.bin = {fx::CAT, fx::OR};
	rp.build(th ? 4 : 3);
	sp.nul = {fx::EPS, fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT};
	sp.un = {fx::STAR, fx::POW2, fx::ADD_A};
	sp.bin = {fx::CAT, fx::OR};
	sp.build(3);
	std::vector<Part> re = distinct(rp, th ? 260 : 90), sep = distinct(sp, th ? 120 : 60);
	uint64_t ns = sep.size();
	mc::phase("texts over a, b, c", re.size() * ns, [&](uint64_t i) { return re[i / ns].text + " separated by " + sep[i % ns].text; },
		[&](uint64_t i) { pair(re[i / ns], sep[i % ns], abc, th ? 7 : 6); });
	// patterns and separators with marks
	fx::Pool rm, sm;
	rm.nul = {fx::A, fx::DOT, fx::BMARK, fx::EMARK};
	rm.un = {fx::STAR, fx::ADD_A, fx::ADD_EM, fx::POW2};
	rm.bin = {fx::CAT};
	rm.build(3);
	sm.nul = {fx::EPS, fx::A, fx::DOT, fx::EMARK, fx::BMARK};
	sm.un = {fx::STAR, fx::SURR, fx::ADD_A};
	sm.bin = {fx::CAT, fx::OR};
	sm.build(3);
	std::vector<Part> rem = distinct(rm, th ? 80 : 36), sepm = distinct(sm, th ? 60 : 36);
	uint64_t nsm = sepm.size();
	mc::phase("texts with marks", rem.size() * nsm, [&](uint64_t i) { return rem[i / nsm].text + " separated by " + sepm[i % nsm].text; },
		[&](uint64_t i) { pair(rem[i / nsm], sepm[i % nsm], all, th ? 5 : 4); });
	// chunks and reuse
	std::vector<std::string> texts{""};
	for (size_t i = 0; i < texts.size(); ++i) if (texts[i].size() < 5) for (char c : {'a', 'b', 'x'}) texts.push_back(texts[i] + c);
	for (int n = 8; n < 60; n += 7) { std::string t; for (int i = 0; i < n; ++i) t += "aababx"[(i * i + n) % 6]; texts.push_back(t); }
	mc::phase("chunks", 12 * 8, [&](uint64_t i) { return "chunks: " + re[i / 8 * 3].text + " separated by " + sep[i % 8 * 4].text; }, [&](uint64_t i) {
		const Fsm r = re[i / 8 * 3].fsm, s = sep[i % 8 * 4].fsm;
		reuse(CountingScanner(r, s), texts, "CountingScanner");
		reuse(AdvancedCountingScanner(r, s), texts, "AdvancedCountingScanner");
		reuse(NoGlueLimitCountingScanner(r, s), texts, "NoGlueLimitCountingScanner");
	});
	// many letter classes: two-letter patterns that tell up to all the bytes apart
	const std::vector<int> ks{2, 128, 250, 251, 252, 253, 254, 255, 256};
	mc::phase("letter classes", ks.size() * 3, [&](uint64_t i) { return std::to_string(ks[i / 3]) + " two-letter words, " + (i % 3 == 0 ? "simple" : i % 3 == 1 ? "advanced" : "limit-free") + " counter"; }, [&](uint64_t i) {
		int k = ks[i / 3];
		Fsm f, sep;
		for (int a = 0; a < k; ++a) {
			Fsm w;
			w.Append((char)a);
			w.Append((char)(a + 1));
			if (a) f |= w; else f = w;
		}
		sep.AppendDot();
		sep.Iterate();
		auto words = [&](const auto& sc) {
			typedef typename std::decay<decltype(sc)>::type Sc;
			int wrong = 0;
			std::string first;
			for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) {
				// b closes a word if it is the letter after a; the second copy of the pair counts again
				size_t want = a < k && b == (a + 1) % 256 ? 2 : 0;
				if (b < k && a == (b + 1) % 256) want = 1;
				char t[4] = {(char)a, (char)b, (char)a, (char)b};
				typename Sc::State st;
				sc.Initialize(st);
				Pire::Step(sc, st, Pire::BeginMark);
				Pire::Run(sc, st, t, t + 4);
				Pire::Step(sc, st, Pire::EndMark);
				++mc::ctx().st.states; mc::ctx().st.transitions += 6;
				size_t got = st.Result(0);
				if (got > want || (got > 0) != (want > 0)) if (!wrong++) first = "text " + mc::show(std::string(t, 4)) + ": counted " + std::to_string(got) + ", expected " + std::to_string(want);
			}
			// (a known finding; a scanner that shares columns misjudges the few texts of the classes concerned)
			if (wrong && wrong <= 32 && sc.LettersCount() > 256) mc::violation("more than 256 letter classes: some texts of the letters that share a class number are counted wrong");
			else if (wrong) mc::violation("wrong for " + std::to_string(wrong) + " texts, first " + first);
		};
		if (i % 3 == 0) words(CountingScanner(f, sep));
		else if (i % 3 == 1) words(AdvancedCountingScanner(f, sep));
		else words(NoGlueLimitCountingScanner(f, sep));
	});
	// counters that are simplified because the exact ones would be too big
	mc::phase("big", th ? 6 : 3, [&](uint64_t i) { return "big pattern " + std::to_string(i); }, [&](uint64_t i) {
		ref::Lang& g = *G;
		Part re, sep;
		int n = 14 + i / 3;
		re.text = "a.{n}"; re.fsm.Append('a'); re.lang = g.str("a");
		for (int k = 0; k < n; ++k) { re.fsm.AppendDot(); re.lang = g.cat(re.lang, g.bytes()); }
		L a = g.str("a"), dots = g.star(g.bytes());
		switch (i % 3) {
			case 0: sep.lang = g.eps(); break;
			case 1: sep.fsm.AppendDot(); sep.fsm.Iterate(); sep.lang = dots; break;
			case 2: sep.fsm.Append('b'); sep.lang = g.str("b"); break;
		}
		bad = false;
		bool simple = false;
		AdvancedCountingScanner A(re.fsm, sep.fsm, &simple);
		mc::count(simple ? "simplified counters" : "big exact counters");
		Ref ref(*re.lang, *sep.lang);
		// texts a^i b^j a^k ... of a few blocks
		for (int x = 0; x < 20; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 40; ++z) {
			AdvancedCountingScanner::State st;
			A.Initialize(st);
			std::string t = std::string(y, 'b') + std::string(1, 'a') + std::string(x, 'c') + (z % 2 ? "b" : "") + std::string(z / 2, 'a');
			for (unsigned char ch : t) Pire::Step(A, st, ch);
			size_t most = 0;
			// most occurrences by dynamic programming
			std::vector<size_t> best(t.size() + 1);
			auto acc = [&](const ref::Dfa& d, size_t i, size_t j) { int s = d.start; for (; i < j; ++i) s = d.next(s, g.al.cls[(unsigned char)t[i]]); return d.fin[s] != 0; };
			for (size_t j = n + 1; j <= t.size(); ++j) if (t[j - n - 1] == 'a') {
				size_t s = j - n - 1, b = 1;
				for (size_t k = 0; k <= s; ++k) if (best[k] && acc(*sep.lang, k, s)) b = std::max(b, best[k] + 1);
				best[j] = std::max(best[j], b); most = std::max(most, b);
			}
			++mc::ctx().st.states;
			if (st.Result(0) > most || (st.Result(0) > 0) != (most > 0)) { mc::violation("text " + mc::show(t) + ": counted " + std::to_string(st.Result(0)) + ", there are " + std::to_string(most)); return; }
		}
	});
	return mc::finish();
}
