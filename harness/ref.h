// Reference formal-language engine, written independently of pire: complete DFAs over a small set of letter
// classes, with textbook constructions (products, subset construction, Moore minimization).  Every language is
// kept as its minimal DFA in canonical (BFS) numbering, so equality of languages is equality of tables.
#pragma once
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <algorithm>
#include <cstdint>

namespace ref {

const int BM = 258, EM = 259, NL = 264;

/// Partition of the letters 0..255, BM, EM into classes.
struct Alpha {
	std::vector<int> cls;               // letter -> class, -1 for letters that do not occur
	std::vector<int> rep;               // class -> one letter of it
	int k = 0;

	/// The coarsest partition in which every given set is a union of classes; marks are always on their own.
	static Alpha make(const std::vector<std::vector<bool>>& sets) {
		Alpha a;
		a.cls.assign(NL, -1);
		std::map<std::vector<bool>, int> sig;
		auto add = [&](int l) {
			std::vector<bool> s;
			for (auto& x : sets) s.push_back(l < (int)x.size() && x[l]);
			s.push_back(l == BM); s.push_back(l == EM);
			auto it = sig.find(s);
			if (it == sig.end()) { it = sig.insert({s, a.k++}).first; a.rep.push_back(l); }
			a.cls[l] = it->second;
		};
		for (int l = 0; l < 256; ++l) add(l);
		add(BM); add(EM);
		return a;
	}
	static Alpha letters(const std::string& s) {
		std::vector<std::vector<bool>> sets;
		for (unsigned char c : s) { std::vector<bool> v(256); v[c] = true; sets.push_back(v); }
		return make(sets);
	}
};

struct Dfa {
	int k = 0, start = 0;
	std::vector<int> tr;       // n*k
	std::vector<char> fin;
	int n() const { return (int)fin.size(); }
	int next(int s, int c) const { return tr[s * k + c]; }
	bool operator<(const Dfa& o) const { return tie() < o.tie(); }
	bool operator==(const Dfa& o) const { return tie() == o.tie(); }
	std::tuple<int, const std::vector<int>&, const std::vector<char>&> tie() const { return std::tie(k, tr, fin); }

	/// states from which acceptance is reachable
	std::vector<char> live() const {
		std::vector<std::vector<int>> inv(n());
		for (int s = 0; s < n(); ++s) for (int c = 0; c < k; ++c) inv[next(s, c)].push_back(s);
		std::vector<char> l(fin.begin(), fin.end());
		std::vector<int> q;
		for (int s = 0; s < n(); ++s) if (l[s]) q.push_back(s);
		while (!q.empty()) { int s = q.back(); q.pop_back(); for (int p : inv[s]) if (!l[p]) { l[p] = 1; q.push_back(p); } }
		return l;
	}
};

/// Minimal DFA, numbered in BFS order from the start.
inline Dfa minimize(const Dfa& d) {
	// reachable
	std::vector<int> id(d.n(), -1), order{d.start};
	id[d.start] = 0;
	for (size_t i = 0; i < order.size(); ++i)
		for (int c = 0; c < d.k; ++c) { int t = d.next(order[i], c); if (id[t] < 0) { id[t] = order.size(); order.push_back(t); } }
	int n = order.size();
	std::vector<int> part(n);
	int np = 1;
	bool a = false, b = false;
	for (int i = 0; i < n; ++i) { part[i] = d.fin[order[i]] ? 1 : 0; (part[i] ? a : b) = true; }
	np = (a && b) ? 2 : 1;
	if (np == 1) std::fill(part.begin(), part.end(), 0);
	for (;;) {
		std::map<std::vector<int>, int> m;
		std::vector<int> np2(n);
		for (int i = 0; i < n; ++i) {
			std::vector<int> key; key.reserve(d.k + 1);
			key.push_back(part[i]);
			for (int c = 0; c < d.k; ++c) key.push_back(part[id[d.next(order[i], c)]]);
			auto it = m.insert({key, (int)m.size()}).first;
			np2[i] = it->second;
		}
		part.swap(np2);
		if ((int)m.size() == np) break;
		np = m.size();
	}
	// canonical numbering
	std::vector<int> repr(np, -1), num(np, -1);
	for (int i = 0; i < n; ++i) if (repr[part[i]] < 0) repr[part[i]] = i;
	Dfa r; r.k = d.k; r.start = 0;
	std::vector<int> ord{part[0]}; num[part[0]] = 0;
	for (size_t i = 0; i < ord.size(); ++i) {
		int st = order[repr[ord[i]]];
		r.fin.push_back(d.fin[st]);
		for (int c = 0; c < d.k; ++c) {
			int t = part[id[d.next(st, c)]];
			if (num[t] < 0) { num[t] = ord.size(); ord.push_back(t); }
			r.tr.push_back(num[t]);
		}
	}
	return r;
}

struct Nfa {
	int k = 0;
	std::vector<std::vector<std::vector<int>>> tr;   // state, class -> targets
	std::vector<std::vector<int>> eps;
	std::vector<char> fin;
	std::vector<int> starts;
	explicit Nfa(int k): k(k) {}
	int add(bool f = false) { tr.emplace_back(k); eps.emplace_back(); fin.push_back(f); return fin.size() - 1; }
	void closure(std::vector<int>& s) const {
		std::vector<char> in(fin.size());
		std::vector<int> q = s, r;
		for (int x : s) in[x] = 1;
		while (!q.empty()) { int x = q.back(); q.pop_back(); r.push_back(x); for (int y : eps[x]) if (!in[y]) { in[y] = 1; q.push_back(y); } }
		std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
		s.swap(r);
	}
	Dfa determinize() const {
		Dfa d; d.k = k; d.start = 0;
		std::map<std::vector<int>, int> m;
		std::vector<std::vector<int>> q;
		std::vector<int> s0 = starts;
		closure(s0);
		m[s0] = 0; q.push_back(s0);
		for (size_t i = 0; i < q.size(); ++i) {
			std::vector<int> cur = q[i];
			bool f = false;
			for (int x : cur) f |= fin[x];
			d.fin.push_back(f);
			for (int c = 0; c < k; ++c) {
				std::vector<int> t;
				for (int x : cur) t.insert(t.end(), tr[x][c].begin(), tr[x][c].end());
				closure(t);
				auto it = m.insert({t, (int)q.size()});
				if (it.second) q.push_back(t);
				d.tr.push_back(it.first->second);
			}
		}
		return minimize(d);
	}
	/// copies a DFA in; returns the offset of its states
	int import(const Dfa& d) {
		int off = fin.size();
		for (int s = 0; s < d.n(); ++s) add(d.fin[s]);
		for (int s = 0; s < d.n(); ++s) for (int c = 0; c < k; ++c) tr[off + s][c].push_back(off + d.next(s, c));
		return off;
	}
};

typedef std::shared_ptr<const Dfa> L;

/// Languages over one alphabet, interned.
struct Lang {
	Alpha al;
	std::map<Dfa, L> pool;
	explicit Lang(const Alpha& a): al(a) {}

	L intern(const Dfa& d) {
		auto it = pool.find(d);
		if (it == pool.end()) it = pool.insert({d, std::make_shared<const Dfa>(d)}).first;
		return it->second;
	}
	L mk(const Dfa& d) { return intern(minimize(d)); }
	L none() { Dfa d; d.k = al.k; d.fin = {0}; d.tr.assign(al.k, 0); return mk(d); }
	L all() { Dfa d; d.k = al.k; d.fin = {1}; d.tr.assign(al.k, 0); return mk(d); }
	L eps() { Dfa d; d.k = al.k; d.fin = {1, 0}; d.tr.assign(2 * al.k, 1); return mk(d); }
	/// one letter out of a set of classes
	L set(const std::set<int>& cs) {
		Dfa d; d.k = al.k; d.fin = {0, 1, 0}; d.tr.assign(3 * al.k, 2);
		for (int c : cs) d.tr[c] = 1;
		return mk(d);
	}
	L letter(int l) { return set({al.cls[l]}); }
	L bytes() { std::set<int> s; for (int i = 0; i < 256; ++i) s.insert(al.cls[i]); return set(s); }
	L any() { std::set<int> s; for (int c = 0; c < al.k; ++c) s.insert(c); return set(s); }
	L str(const std::string& s) { L r = eps(); for (unsigned char c : s) r = cat(r, letter(c)); return r; }

	template<class F> L product(const L& a, const L& b, F f) {
		Dfa d; d.k = al.k;
		std::map<std::pair<int, int>, int> m;
		std::vector<std::pair<int, int>> q{{a->start, b->start}};
		m[q[0]] = 0;
		for (size_t i = 0; i < q.size(); ++i) {
			auto p = q[i];
			d.fin.push_back(f(a->fin[p.first], b->fin[p.second]));
			for (int c = 0; c < al.k; ++c) {
				std::pair<int, int> t(a->next(p.first, c), b->next(p.second, c));
				auto it = m.insert({t, (int)q.size()});
				if (it.second) q.push_back(t);
				d.tr.push_back(it.first->second);
			}
		}
		return mk(d);
	}
	L alt(const L& a, const L& b) { return product(a, b, [](bool x, bool y) { return x || y; }); }
	L conj(const L& a, const L& b) { return product(a, b, [](bool x, bool y) { return x && y; }); }
	L diff(const L& a, const L& b) { return product(a, b, [](bool x, bool y) { return x && !y; }); }
	L inv(const L& a) { Dfa d = *a; for (auto& f : d.fin) f = !f; return mk(d); }
	L cat(const L& a, const L& b) {
		Nfa m(al.k);
		int x = m.import(*a), y = m.import(*b);
		for (int s = 0; s < a->n(); ++s) if (a->fin[s]) { m.fin[x + s] = 0; m.eps[x + s].push_back(y + b->start); }
		m.starts = {x + a->start};
		return intern(m.determinize());
	}
	L star(const L& a) {
		Nfa m(al.k);
		int x = m.import(*a), s = m.add(true);
		m.eps[s].push_back(x + a->start);
		for (int i = 0; i < a->n(); ++i) if (a->fin[i]) m.eps[x + i].push_back(s);
		m.starts = {s};
		return intern(m.determinize());
	}
	L pow(const L& a, int n) { L r = eps(); while (n--) r = cat(r, a); return r; }
	L rev(const L& a) {
		Nfa m(al.k);
		for (int s = 0; s < a->n(); ++s) m.add(s == a->start);
		for (int s = 0; s < a->n(); ++s) for (int c = 0; c < al.k; ++c) m.tr[a->next(s, c)][c].push_back(s);
		for (int s = 0; s < a->n(); ++s) if (a->fin[s]) m.starts.push_back(s);
		return intern(m.determinize());
	}
	L prefixes(const L& a) { Dfa d = *a; d.fin = a->live(); return mk(d); }
	L suffixes(const L& a) {
		Nfa m(al.k);
		int x = m.import(*a);
		for (int s = 0; s < a->n(); ++s) m.starts.push_back(x + s);  // minimal DFA: every state is reachable
		return intern(m.determinize());
	}
	L surround(const L& a) { return cat(cat(all(), a), all()); }
	bool accepts(const L& a, const std::vector<int>& letters) {
		int s = a->start;
		for (int l : letters) s = a->next(s, al.cls[l]);
		return a->fin[s];
	}
};

} // namespace ref
