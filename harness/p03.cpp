// P03: canonicalization preserves the language and yields the minimal automaton.
//
// Every sequence of up to three representation changes on construction programs and raw automata; product
// exploration of the result, readout of its determinism, state count against the minimal reference DFA, tags
// against the subset construction, and the size limit at and around the real number of states.
#include "fsmexpr.h"
#include "raw.h"
using namespace fx;

// the alphabet pire works with also has letters that no text contains (256, 260..263)
static ref::Alpha withPhantom(ref::Alpha a) {
	a.cls[256] = a.k;
	for (int l = 260; l < ref::NL; ++l) a.cls[l] = a.k;
	a.rep.push_back(260);
	++a.k;
	return a;
}

static std::string deterministic(const Fsm& f) {
	for (size_t s = 0; s < f.Size(); ++s) {
		if (!f.Destinations(s, Pire::Epsilon).empty()) return "state " + std::to_string(s) + " has an empty transition";
		for (int l = 0; l < Pire::MaxChar; ++l)
			if (l != Pire::Epsilon && f.Destinations(s, l).size() != 1)
				return "state " + std::to_string(s) + " has " + std::to_string(f.Destinations(s, l).size()) + " transitions for letter " + std::to_string(l);
	}
	return "";
}

static void checkLang(const Fsm& f, const L& l, ref::Lang& g, const std::string& what, bool slow) {
	std::string e;
	if (slow) e = mc::compare(Fsm(f).Compile<Pire::SlowScanner>(), *l, g.al);
	else e = mc::compare(Fsm(f).Compile<Pire::Scanner>(), *l, g.al);
	if (!e.empty()) mc::violation(what + (slow ? " (slow scanner): " : " (scanner): ") + e);
}

enum { O_EPS, O_DET, O_MIN, O_CANON, O_PACK, O_UNPACK, O_DEADENDS, O_N };
static const char* oname[] = {"RemoveEpsilons", "Determine", "Minimize", "Canonize", "Sparse", "Unsparse", "RemoveDeadEnds"};

/// direct reading of the language of a determined automaton
static std::string readout(const Fsm& f, const L& l, ref::Lang& g) {
	std::map<std::pair<size_t, int>, int> seen;
	std::vector<std::pair<size_t, int>> q{{f.Initial(), l->start}};
	seen[q[0]] = 0;
	for (size_t i = 0; i < q.size(); ++i) {
		auto p = q[i];
		++mc::ctx().st.states;
		if (f.IsFinal(p.first) != (bool)l->fin[p.second]) return "automaton read as a table accepts another language";
		for (int x = 0; x < Pire::MaxChar; ++x) {
			if (x == Pire::Epsilon) continue;
			auto& d = f.Destinations(p.first, x);
			++mc::ctx().st.transitions;
			if (d.size() != 1) return "table is not deterministic";
			std::pair<size_t, int> t(*d.begin(), l->next(p.second, g.al.cls[x]));
			if (seen.insert({t, 0}).second) q.push_back(t);
		}
	}
	return "";
}

static void sequences(const Fsm& f, const L& l, ref::Lang& g, int depth, bool packed, bool canon, const std::string& what, int parity) {
	for (int o = 0; o < O_N; ++o) {
		if (o == O_MIN && !f.IsDetermined()) continue;
		if (o == O_PACK && f.IsDetermined() && f.Letters().Size() == 0) continue;
		Fsm x(f);
		bool pk = packed;
		std::string w = what + " " + oname[o];
		switch (o) {
			case O_EPS: x.RemoveEpsilons(); pk = true; break;
			case O_DET: if (!x.Determine()) mc::violation(w + " failed"); pk = pk || !f.IsDetermined(); break;
			case O_MIN: x.Minimize(); break;
			case O_CANON: x.Canonize(); pk = pk || !f.IsDetermined(); break;
			case O_PACK: x.Sparse(); pk = true; break;
			case O_UNPACK: x.Unsparse(); pk = false; break;
			case O_DEADENDS: x.RemoveDeadEnds(); break;
		}
		if (o == O_DET || o == O_CANON || o == O_MIN) {
			std::string e = x.IsDetermined() ? deterministic(x) : "not determined";
			if (e.empty()) e = readout(x, l, g);
			if (!e.empty()) mc::violation(w + ": " + e);
		}
		if ((o == O_CANON || o == O_MIN) && x.Size() != (size_t)l->n())
			mc::violation(w + ": " + std::to_string(x.Size()) + " states, the minimal automaton has " + std::to_string(l->n()));
		// the same by running the compiled automaton
		if (o != O_CANON || !canon) checkLang(x, l, g, w, (parity + o) % 2);
		if (depth > 1) sequences(x, l, g, depth - 1, pk, canon || o == O_CANON, w, parity + o + 1);
	}
}

static void limits(const Fsm& f, const L& l, ref::Lang& g) {
	Fsm d(f);
	d.Determine();
	size_t n = d.Size();
	if (f.IsDetermined()) return;
	for (size_t m = 1; m <= n + 1 && m <= 40; ++m) {
		Fsm x(f);
		bool ok = x.Determine(m);
		++mc::ctx().st.states;
		std::string w = "Determine(" + std::to_string(m) + ") of an automaton that determines to " + std::to_string(n) + " states";
		if (m >= n && !ok) mc::violation(w + " fails");
		if (m + 1 < n && ok) mc::violation(w + " succeeds");
		if (!ok && x.IsDetermined()) mc::violation(w + " fails but claims to be determined");
		if (ok) { std::string e = readout(x, l, g); if (!e.empty()) mc::violation(w + ": " + e); }
		else if (m <= 3 || m + 3 >= n) checkLang(x, l, g, w, m % 2);
		Fsm y(f);
		bool thrown = false;
		try { y.Canonize(m); } catch (const Pire::Error&) { thrown = true; }
		if (thrown == ok) mc::violation(w + ": Canonize disagrees with Determine");
		if (thrown) checkLang(y, l, g, w + " (Canonize)", true);
	}
}

// ---- tags ---------------------------------------------------------------------------------------------------
static void tags(const raw::Nfa& a, bool absorbing, unsigned tagged) {
	// a tagged state s carries bit s+1 and, shared, bit 0
	Fsm f = a.build();
	auto tag = [&](int s) { return tagged >> s & 1 ? (2ul << s) | (s % 2) : 0ul; };
	for (int s = 0; s < a.n; ++s) if (tag(s)) f.SetTag(s, tag(s));
	if (absorbing) {
		// the last state becomes accepting and absorbs everything
		for (int l = 0; l < Pire::MaxChar; ++l) if (l != Pire::Epsilon) f.Connect(a.n - 1, a.n - 1, l);
		f.SetFinal(a.n - 1, true);
	}
	f.Determine();
	auto closure = [&](unsigned m) {
		for (bool ch = true; ch;) {
			ch = false;
			for (int s = 0; s < a.n; ++s) if (m >> s & 1)
				for (size_t l = 0; l < a.letters.size(); ++l) if (a.letters[l] == raw::EPSI && (a.tr[s][l] & ~m)) { m |= a.tr[s][l]; ch = true; }
		}
		return m;
	};
	std::map<std::pair<size_t, unsigned>, int> seen;
	std::vector<std::pair<size_t, unsigned>> q{{f.Initial(), closure(1)}};
	seen[q[0]] = 0;
	for (size_t i = 0; i < q.size(); ++i) {
		auto p = q[i];
		++mc::ctx().st.states;
		// After an absorbing accepting state nothing but acceptance is promised.
		bool abs = absorbing && (p.second >> (a.n - 1) & 1);
		if (!abs) {
			unsigned long want = 0;
			for (int s = 0; s < a.n; ++s) if (p.second >> s & 1) want |= tag(s);
			if (f.Tag(p.first) != want)
				mc::violation("tag of the state for subset " + std::to_string(p.second) + " is " + std::to_string(f.Tag(p.first)) + ", not " + std::to_string(want));
		} else {
			if (!f.IsFinal(p.first)) mc::violation("absorbing accepting state lost");
			if ((tagged >> (a.n - 1) & 1) && !(f.Tag(p.first) >> a.n & 1)) mc::violation("tag of the absorbing state lost");
			continue;
		}
		for (int x : {(int)'a', (int)'b', (int)'c', 260}) {
			unsigned t = 0;
			for (int s = 0; s < a.n; ++s) if (p.second >> s & 1) {
				for (size_t l = 0; l < a.letters.size(); ++l) if (a.letters[l] == x) t |= a.tr[s][l];
			}
			t = closure(t);
			++mc::ctx().st.transitions;
			auto& d = f.Destinations(p.first, x);
			if (d.size() != 1) { mc::violation("not deterministic"); return; }
			if (seen.insert({{*d.begin(), t}, 0}).second) q.push_back({*d.begin(), t});
		}
	}
}

// ---- transitions added after unpacking ------------------------------------------------------------------------
static void extend(const raw::Nfa& a, ref::Lang& g) {
	for (int s = 0; s < a.n; ++s) for (int t = 0; t < a.n; ++t) for (int c : {'a', 'c'}) {
		raw::Nfa b = a;
		size_t k = 0;
		while (k < b.letters.size() && b.letters[k] != c) ++k;
		if (k == b.letters.size()) { b.letters.push_back(c); for (auto& r : b.tr) r.push_back(0); }
		b.tr[s][k] |= 1u << t;
		Fsm f = a.build();
		f.RemoveEpsilons();      // keeps the states; a has no empty transitions
		f.Unsparse();
		f.Connect(s, t, c);
		checkLang(f, b.lang(g), g, "unpacked, then connected " + std::to_string(s) + "-" + (char)c + ">" + std::to_string(t), t % 2);
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	lang() = ref::Lang(withPhantom(ref::Alpha::letters("abc")));
	std::map<int, L> memo;
	auto exprPhase = [&](const char* name, Pool& p, size_t from, int depth) {
		memo.clear();
		mc::phase(name, p.nodes.size() - from, [&](uint64_t i) { return p.text(from + i); }, [&](uint64_t i) {
			L l = refl(p, from + i, memo);
			Fsm f = build(p, from + i);
			if (!f.IsDetermined() || f.Letters().Size()) sequences(f, l, lang(), depth, f.Letters().Size() != 0, false, "", i);
			limits(f, l, lang());
			if (i % 499 == 3) mc::sample(p.text(from + i));
		});
	};
	Pool full;
	full.nul = {EPS, FALSE_, A, B, STR, ALTS, DOT, BMARK, EMARK};
	full.un = {STAR, NOT, POW0, POW2, POW3, SURR, PREP, APP, ADD_A, ADD_STR, ADD_ALTS, ADD_DOT, ADD_EM};
	full.bin = {CAT, OR, AND};
	full.build(2);
	exprPhase("expr<=2", full, 0, th ? 4 : 3);
	full.nodes.clear();
	full.build(3);
	exprPhase("expr=3", full, full.begin[3], th ? 2 : 1);
	ref::Lang g(withPhantom(ref::Alpha::letters("abc")));
	auto rawPhase = [&](const char* name, const auto& all, int depth) {
		mc::phase(name, all.count(), [&](uint64_t i) { return all.get(i).text(); }, [&](uint64_t i) {
			raw::Nfa a = all.get(i);
			L l = a.lang(g);
			sequences(a.build(), l, g, depth, false, false, "", i);
			limits(a.build(), l, g);
			for (unsigned t = 1; t < 1u << a.n; ++t)
				for (int abs = 0; abs < 2; ++abs) tags(a, abs, t);
		});
	};
	rawPhase("nfa 2 states a,eps", raw::AllNfa{2, {'a', raw::EPSI}}, th ? 4 : 3);
	rawPhase("nfa 2 states a,b,eps", raw::AllNfa{2, {'a', 'b', raw::EPSI}}, th ? 2 : 1);
	rawPhase("nfa 3 states a", raw::AllNfa{3, {'a'}}, th ? 2 : 1);
	if (th) rawPhase("nfa 3 states a, few eps", raw::AllNfa{3, {'a', raw::EPSI}, true}, 1);
	if (th) rawPhase("dfa 3 states a,b", raw::AllDfa{3, {'a', 'b'}, true}, 1);
	// minimal automata of every size: chains and cycles
	mc::phase("cycles", 60, [](uint64_t i) { return "length " + std::to_string(i + 1); }, [&](uint64_t i) {
		int n = i + 1;
		for (int two = 0; two < 2; ++two) {
			Fsm f;
			int m = two ? 2 * n : n;
			f.Resize(m); f.ClearFinal();
			for (int s = 0; s < m; ++s) {
				f.Connect(s, (s + 1) % m, 'a');
				if (s % n == n / 2) f.SetFinal(s, true);
			}
			f.SetIsDetermined(false);
			ref::Dfa d; d.k = g.al.k;
			for (int s = 0; s <= n; ++s) {
				d.fin.push_back(s < n && s == n / 2);
				for (int c = 0; c < d.k; ++c) d.tr.push_back(s < n && c == g.al.cls['a'] ? (s + 1) % n : n);
			}
			sequences(f, g.mk(d), g, 2, false, false, "", i);
			limits(f, g.mk(d), g);
		}
	});
	raw::AllNfa ext{2, {'a', 'b'}};
	mc::phase("connect after unpack", ext.count(), [&](uint64_t i) { return ext.get(i).text(); }, [&](uint64_t i) { extend(ext.get(i), g); });
	return mc::finish();
}
