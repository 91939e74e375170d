// Exhaustive enumeration of raw automata: every automaton of n states over a few letters and empty transitions,
// every choice of start (0) and accepting states.
#pragma once
#include "product.h"

namespace raw {

using Pire::Fsm; using ref::L;

const int EPSI = -1;

struct Nfa {
	int n = 1;
	std::vector<int> letters;                 // bytes, marks or EPSI
	std::vector<std::vector<unsigned>> tr;    // state, letter index -> bitmask of targets
	unsigned fin = 0;
	bool det = false;

	std::string text() const {
		std::string r = std::to_string(n) + " states, final {";
		for (int s = 0; s < n; ++s) if (fin >> s & 1) r += std::to_string(s);
		r += "}";
		for (int s = 0; s < n; ++s) for (size_t l = 0; l < letters.size(); ++l) for (int t = 0; t < n; ++t)
			if (tr[s][l] >> t & 1) {
				r += " " + std::to_string(s) + "-";
				r += letters[l] == EPSI ? std::string("e") : mc::showLetters({letters[l]});
				r += ">" + std::to_string(t);
			}
		if (det) r += " (deterministic)";
		return r;
	}
	Fsm build() const {
		Fsm f;
		f.Resize(n);
		f.ClearFinal();
		for (int s = 0; s < n; ++s) if (fin >> s & 1) f.SetFinal(s, true);
		for (int s = 0; s < n; ++s) for (size_t l = 0; l < letters.size(); ++l) for (int t = 0; t < n; ++t)
			if (tr[s][l] >> t & 1) f.Connect(s, t, letters[l] == EPSI ? Pire::Epsilon : (Pire::Char)letters[l]);
		f.SetIsDetermined(false);
		return f;
	}
	L lang(ref::Lang& g) const {
		ref::Nfa m(g.al.k);
		for (int s = 0; s < n; ++s) m.add(fin >> s & 1);
		for (int s = 0; s < n; ++s) for (size_t l = 0; l < letters.size(); ++l) for (int t = 0; t < n; ++t)
			if (tr[s][l] >> t & 1) {
				if (letters[l] == EPSI) m.eps[s].push_back(t);
				else m.tr[s][g.al.cls[letters[l]]].push_back(t);
			}
		m.starts = {0};
		return g.intern(m.determinize());
	}
	/// states on some path from the start to acceptance
	std::vector<char> useful() const {
		std::vector<char> f(n), b(n);
		f[0] = 1;
		for (int s = 0; s < n; ++s) b[s] = fin >> s & 1;
		for (int k = 0; k < n; ++k)
			for (int s = 0; s < n; ++s) for (auto m : tr[s]) for (int t = 0; t < n; ++t)
				if (m >> t & 1) { if (f[s]) f[t] = 1; if (b[t]) b[s] = 1; }
		for (int s = 0; s < n; ++s) f[s] = f[s] && b[s];
		return f;
	}
};

/// All nondeterministic automata with n states over the letters: 2^(n*n*letters) * 2^n.
/// With fewEps, empty transitions only along 0>1, 0>2, 1>2 and 2>0.
struct AllNfa {
	int n; std::vector<int> letters; bool fewEps = false;
	bool allowed(int s, int l, int t) const {
		if (!fewEps || letters[l] != EPSI) return true;
		return s < t || (s == n - 1 && t == 0);
	}
	uint64_t count() const {
		int bits = n;
		for (int s = 0; s < n; ++s) for (size_t l = 0; l < letters.size(); ++l) for (int t = 0; t < n; ++t) bits += allowed(s, l, t);
		return 1ull << bits;
	}
	Nfa get(uint64_t i) const {
		Nfa a; a.n = n; a.letters = letters;
		a.fin = i & ((1u << n) - 1); i >>= n;
		a.tr.assign(n, std::vector<unsigned>(letters.size()));
		for (int s = 0; s < n; ++s) for (size_t l = 0; l < letters.size(); ++l) for (int t = 0; t < n; ++t)
			if (allowed(s, l, t)) { if (i & 1) a.tr[s][l] |= 1u << t; i >>= 1; }
		return a;
	}
};

/// All partial deterministic automata with n states: each (state, letter) has one of n targets or none.
struct AllDfa {
	int n; std::vector<int> letters; bool partial;
	uint64_t count() const {
		uint64_t c = 1ull << n;
		for (size_t k = 0; k < n * letters.size(); ++k) c *= n + partial;
		return c;
	}
	Nfa get(uint64_t i) const {
		Nfa a; a.n = n; a.letters = letters; a.det = true;
		a.fin = i & ((1u << n) - 1); i >>= n;
		a.tr.assign(n, std::vector<unsigned>(letters.size()));
		int b = n + partial;
		for (auto& r : a.tr) for (auto& m : r) { int t = i % b; i /= b; m = t < n ? 1u << t : 0; }
		return a;
	}
};

} // namespace raw
