// Patterns with groups: a small parser of its own, and a tagged nondeterministic automaton for them.
#pragma once
#include "mc.h"
#include <memory>
#include <set>
#include <map>

namespace grp {

struct Node; typedef std::shared_ptr<Node> P;
enum Kind { LETTERS, CAT, ALT, REP, GROUP };
// letters: bits 0..2 are a, b, c; 3 the begin mark, 4 the end mark
enum { LA = 1, LB = 2, LC = 4, LDOT = 7, LBM = 8, LEM = 16, LETTERCOUNT = 5 };
struct Node { Kind kind; int mask = 0, lo = 0, hi = -1, group = 0; bool greedy = true; std::vector<P> sub; };

struct Parser {
	const std::string& s; size_t p = 0; int groups = 0; bool bad = false;
	explicit Parser(const std::string& t): s(t) {}
	static P mk(Kind k) { auto n = std::make_shared<Node>(); n->kind = k; return n; }
	P alt() {
		P n = mk(ALT); n->sub.push_back(cat());
		while (!bad && p < s.size() && s[p] == '|') { ++p; n->sub.push_back(cat()); }
		return n->sub.size() == 1 ? n->sub[0] : n;
	}
	P cat() {
		P n = mk(CAT);
		while (!bad && p < s.size() && s[p] != '|' && s[p] != ')') n->sub.push_back(iter());
		return n;
	}
	P iter() {
		P a = atom();
		if (bad || p >= s.size()) return a;
		int lo, hi;
		if (s[p] == '*') lo = 0, hi = -1;
		else if (s[p] == '+') lo = 1, hi = -1;
		else if (s[p] == '?') lo = 0, hi = 1;
		else if (s[p] == '{') {
			size_t q = p + 1; lo = 0;
			while (isdigit(s[q])) lo = lo * 10 + s[q++] - '0';
			hi = lo;
			if (s[q] == ',') { ++q; if (s[q] == '}') hi = -1; else { hi = 0; while (isdigit(s[q])) hi = hi * 10 + s[q++] - '0'; } }
			p = q;
		} else return a;
		++p;
		P n = mk(REP); n->lo = lo; n->hi = hi; n->sub.push_back(a);
		if (p < s.size() && s[p] == '?') { n->greedy = false; ++p; }
		return n;
	}
	P atom() {
		char c = s[p++];
		if (c == '(') {
			P n = mk(GROUP); n->group = ++groups;
			n->sub.push_back(alt());
			if (p >= s.size() || s[p] != ')') { bad = true; return n; }
			++p;
			return n;
		}
		P n = mk(LETTERS);
		switch (c) {
			case 'a': n->mask = LA; break;
			case 'b': n->mask = LB; break;
			case 'c': n->mask = LC; break;
			case '.': n->mask = LDOT; break;
			case '^': n->mask = LBM; break;
			case '$': n->mask = LEM; break;
			case '[': while (p < s.size() && s[p] != ']') n->mask |= 1 << (s[p++] - 'a'); ++p; break;
			default: bad = true;
		}
		return n;
	}
};
/// null if the text is not a pattern
inline P parse(const std::string& s, int* groups = 0) {
	Parser r(s);
	P n = r.alt();
	if (r.bad || r.p != s.size()) return P();
	if (groups) *groups = r.groups;
	return n;
}

/// Automaton with empty transitions; those of the chosen group's edges are marked.
struct Nfa {
	struct Eps { int to; char mark; };                 // mark: 0, 'B', 'E'
	struct Edge { int to; int mask; };
	std::vector<std::vector<Eps>> eps; std::vector<std::vector<Edge>> edge;
	int start = 0, end = 0;
	int add() { eps.emplace_back(); edge.emplace_back(); return eps.size() - 1; }
	void link(int a, int b, char m = 0) { eps[a].push_back({b, m}); }
	/// builds n between two new states
	std::pair<int, int> put(const P& n, int group) {
		int a = add(), b = add();
		switch (n->kind) {
			case LETTERS: edge[a].push_back({b, n->mask}); break;
			case CAT: { int c = a; for (auto& x : n->sub) { auto q = put(x, group); link(c, q.first); c = q.second; } link(c, b); break; }
			case ALT: for (auto& x : n->sub) { auto q = put(x, group); link(a, q.first); link(q.second, b); } break;
			case GROUP: { auto q = put(n->sub[0], group); link(a, q.first, n->group == group ? 'B' : 0); link(q.second, b, n->group == group ? 'E' : 0); break; }
			case REP: {
				int c = a;
				for (int i = 0; i < n->lo; ++i) { auto q = put(n->sub[0], group); link(c, q.first); c = q.second; }
				if (n->hi < 0) { auto q = put(n->sub[0], group); link(c, q.first); link(q.second, c); link(c, b); }
				else {
					for (int i = n->lo; i < n->hi; ++i) { auto q = put(n->sub[0], group); link(c, q.first); link(c, b); c = q.second; }
					link(c, b);
				}
				break;
			}
		}
		return {a, b};
	}
	/// anything, the pattern, anything
	void surrounded(const P& n, int group) {
		int s = add(), t = add();
		edge[s].push_back({s, 31}); edge[t].push_back({t, 31});
		auto q = put(n, group);
		link(s, q.first); link(q.second, t);
		start = s; end = t;
	}
};

inline bool nullable(const P& n) {
	switch (n->kind) {
		case LETTERS: return false;
		case CAT: for (auto& x : n->sub) if (!nullable(x)) return false; return true;
		case ALT: for (auto& x : n->sub) if (nullable(x)) return true; return false;
		case GROUP: return nullable(n->sub[0]);
		case REP: return n->lo == 0 || nullable(n->sub[0]);
	}
	return false;
}
/// how often a match can pass through the group: 0 never, 1 exactly once, 2 anything else
inline int passes(const P& n, int group) {
	switch (n->kind) {
		case LETTERS: return 0;
		case CAT: { int r = 0; for (auto& x : n->sub) r = std::min(2, r + passes(x, group)); return r; }
		case ALT: { int r = passes(n->sub[0], group); for (auto& x : n->sub) if (passes(x, group) != r) r = 2; return r; }
		case GROUP: return n->group == group ? 1 : passes(n->sub[0], group);
		case REP: { int r = passes(n->sub[0], group); return r == 0 ? 0 : n->lo == 1 && n->hi == 1 ? r : 2; }
	}
	return 2;
}

} // namespace grp
