// The reference for approximate matching: the language of all words at most k edits away from a word of a given
// language, where an edit inserts, deletes or replaces a letter or swaps two adjacent letters (which are then left
// alone).
#pragma once
#include "ref.h"

namespace approx {

/// one automaton state per (state of d, edits left, letter owed by a swap)
inline ref::L within(ref::Lang& g, const ref::L& l, int k) {
	const ref::Dfa& d = *l;
	int n = d.n(), c = d.k;
	ref::Nfa m(c);
	std::vector<char> live = d.live();
	for (int e = 0; e <= k; ++e) for (int s = 0; s < n; ++s) m.add(d.fin[s]);
	auto id = [&](int s, int left) { return left * n + s; };
	std::map<std::tuple<int, int, int>, int> owed;      // state behind both letters, edits left, letter still to come
	for (int e = 0; e <= k; ++e) for (int s = 0; s < n; ++s) {
		if (!live[s]) continue;
		for (int x = 0; x < c; ++x) m.tr[id(s, e)][x].push_back(id(d.next(s, x), e));
		if (!e) continue;
		for (int x = 0; x < c; ++x) {
			int t = d.next(s, x);
			m.tr[id(s, e)][x].push_back(id(s, e - 1));                                   // x was inserted
			for (int y = 0; y < c; ++y) m.tr[id(s, e)][y].push_back(id(t, e - 1));       // x became y
			m.eps[id(s, e)].push_back(id(t, e - 1));                                     // x was deleted
			for (int y = 0; y < c; ++y) {                                                // xy became yx
				int u = d.next(t, y);
				if (!live[u]) continue;
				auto key = std::make_tuple(u, e - 1, x);
				auto it = owed.find(key);
				if (it == owed.end()) { int o = m.add(); m.tr[o][x].push_back(id(u, e - 1)); it = owed.insert({key, o}).first; }
				m.tr[id(s, e)][y].push_back(it->second);
			}
		}
	}
	m.starts = {id(d.start, k)};
	return g.intern(m.determinize());
}

} // namespace approx
