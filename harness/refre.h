// Reference reading of pire's pattern syntax, written from its documentation: a recursive-descent parser over
// Unicode characters that either rejects a pattern or yields a tree, and the denotation of the tree as a language
// of byte sequences (ref.h).  Independent of pire's lexer, parser, classes and encodings.
#pragma once
#include "ref.h"
#include <stdexcept>

namespace refre {

typedef uint32_t C32;
typedef std::vector<C32> U32;

struct Opts { bool utf8 = false, icase = false, andnot = false, glyphs = false; };

inline U32 u32(const std::string& s) {            // well-formed UTF-8 literals of the harness only
	U32 r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		C32 v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 0x3F);
		r.push_back(v); i += n;
	}
	return r;
}
inline std::string enc8(C32 c) {
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
inline bool isScalar(C32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000); }
/// bytes of a character in the text encoding; empty if it has none
inline std::string encode(C32 c, bool utf8) {
	if (utf8) return isScalar(c) ? enc8(c) : std::string();
	return c < 0x80 ? std::string(1, (char)c) : std::string();
}
inline std::string show(const U32& p) {
	std::string r;
	for (C32 c : p) { if (c >= 32 && c < 127) r += (char)c; else { char b[16]; snprintf(b, sizeof b, "<U+%04X>", c); r += b; } }
	return "/" + r + "/";
}

// ---- sets of characters -------------------------------------------------------------------------------------
typedef std::set<C32> Set;

/// case counterparts; filled by the harness (see casetab.h); identity by default
inline void (*caseHook)(C32, Set&) = nullptr;
inline void caseVariants(C32 c, Set& out) {
	out.insert(c);
	if (caseHook) { caseHook(c, out); return; }
	auto r = [&](C32 lo, C32 hi, int d) { if (c >= lo && c <= hi) out.insert(c + d); };
	r('a', 'z', -32); r('A', 'Z', 32);
	r(0x430, 0x44F, -32); r(0x410, 0x42F, 32); r(0x451, 0x451, -80); r(0x401, 0x401, 80);
	r(0xE0, 0xF6, -32); r(0xF8, 0xFE, -32); r(0xC0, 0xD6, 32); r(0xD8, 0xDE, 32);
}
inline const std::vector<Set>& glyphClasses() {
	static const std::vector<Set> g = {
		{'A', 0x410}, {'B', 0x412}, {'C', 0x421}, {'E', 0x415, 0x401}, {'H', 0x41D}, {'K', 0x41A}, {'M', 0x41C}, {'O', 0x41E},
		{'P', 0x420}, {'T', 0x422}, {'X', 0x425},
		{'a', 0x430}, {'c', 0x441}, {'e', 0x435, 0x451}, {'m', 0x442}, {'o', 0x43E}, {'p', 0x440}, {'u', 0x438}, {'x', 0x445}, {'y', 0x443} };
	return g;
}
/// named classes; returns false if there is no such class
inline bool klass(C32 c, Set& s) {
	auto add = [&](C32 lo, C32 hi) { for (C32 x = lo; x <= hi; ++x) s.insert(x); };
	switch (c) {
		case 'd': add('0', '9'); return true;
		case 's': for (C32 x : {0x20, 9, 13, 10, 0xA0}) s.insert(x); return true;
		case 'l': add('A', 'Z'); add('a', 'z'); return true;
		case 'c': add(0x410, 0x44F); s.insert(0x401); s.insert(0x451); return true;
		case 'w': klass('l', s); klass('c', s); return true;
		case 'n': s.insert(10); return true;
		case 'r': s.insert(13); return true;
		case 't': s.insert(9); return true;
	}
	return false;
}

struct Leaf {
	Set chars;
	bool neg = false;
	std::vector<Set> negClasses;     // members that are complements of classes
	bool pos = false;                // has an ordinary class as a member
};

struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
	enum Kind { Empty, Letters, Dot, Bm, Em, Cat, Alt, And, Not, Rep } kind;
	Set chars; bool neg = false;     // Letters
	std::vector<P> kids;
	int lo = 0, hi = 0;              // Rep; hi < 0: no bound
	int group = -1;                  // number of the group whose parentheses this node stands in
	bool lazy = false;
};

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

class Parser {
public:
	Parser(const U32& s, const Opts& o): s(s), o(o) {}
	P parse() {
		P r = alternative();
		if (i != s.size()) throw Bad("junk");
		return r;
	}
	int groups = 0;
private:
	const U32& s; Opts o; size_t i = 0;
	bool end() const { return i >= s.size(); }
	C32 at(size_t k = 0) const { return i + k < s.size() ? s[i + k] : 0xFFFFFFFF; }
	static P mk(Node::Kind k, std::vector<P> kids = {}) { auto n = std::make_shared<Node>(); n->kind = k; n->kids = kids; return n; }

	P alternative() {
		std::vector<P> v{conjunction()};
		while (!end() && at() == '|') { ++i; v.push_back(conjunction()); }
		return v.size() == 1 ? v[0] : mk(Node::Alt, v);
	}
	P conjunction() {
		std::vector<P> v{negation()};
		while (o.andnot && !end() && at() == '&') { ++i; v.push_back(negation()); }
		return v.size() == 1 ? v[0] : mk(Node::And, v);
	}
	P negation() {
		if (o.andnot && !end() && at() == '~') { ++i; return mk(Node::Not, {concatenation()}); }
		return concatenation();
	}
	P concatenation() {
		std::vector<P> v;
		while (!end() && at() != '|' && at() != ')' && !(o.andnot && (at() == '&' || at() == '~'))) v.push_back(iteration());
		return v.size() == 1 ? v[0] : mk(Node::Cat, v);
	}
	P iteration() {
		P t = term();
		int lo, hi;
		if (end()) return t;
		if (at() == '*') { ++i; lo = 0; hi = -1; }
		else if (at() == '+') { ++i; lo = 1; hi = -1; }
		else if (at() == '?') { ++i; lo = 0; hi = 1; }
		else if (at() == '{') {
			++i; lo = number();
			if (at() == '}') { hi = lo; ++i; }
			else if (at() == ',') {
				++i;
				if (at() == '}') { hi = -1; ++i; }
				else { hi = number(); if (at() != '}' || hi < lo) throw Bad("count"); ++i; }
			} else throw Bad("count");
		} else return t;
		P r = mk(Node::Rep, {t});
		r->lo = lo; r->hi = hi;
		return r;
	}
	int number() {
		long v = 0; bool any = false;
		while (!end() && at() >= '0' && at() <= '9') { v = v * 10 + (at() - '0'); any = true; ++i; if (v > 2147483647L) throw Bad("count"); }
		if (!any) throw Bad("count");
		return (int)v;
	}
	P letters(const Leaf& l) {
		P n = mk(Node::Letters);
		Set cs = l.chars;
		bool neg = l.neg;
		if (!l.negClasses.empty()) {
			if (l.pos || l.neg) throw Bad("mixed");
			// the union of complements is the complement of the intersection; the explicit characters are added back
			Set x = l.negClasses[0];
			for (auto& k : l.negClasses) { Set y; for (C32 c : x) if (k.count(c)) y.insert(c); x = y; }
			Set expl = fold(cs, false);
			for (C32 c : expl) x.erase(c);
			n->chars = glyph(x); n->neg = true;
			return n;
		}
		n->chars = glyph(fold(cs, true)); n->neg = neg;
		return n;
	}
	Set fold(const Set& in, bool) const {
		if (!o.icase) return in;
		Set r;
		for (C32 c : in) caseVariants(c, r);
		return r;
	}
	Set glyph(const Set& in) const {
		if (!o.glyphs) return in;
		Set r = in;
		for (auto& g : glyphClasses()) for (C32 c : g) if (in.count(c)) { r.insert(g.begin(), g.end()); break; }
		return r;
	}
	static int hex(C32 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	C32 hexEscape() {      // behind "\x"
		C32 v = 0;
		if (at() == '{') {
			++i;
			int n = 0;
			for (; !end() && hex(at()) >= 0; ++i, ++n) { if (v <= 0x10FFFF) v = v * 16 + hex(at()); }
			if (!n || at() != '}') throw Bad("hex");
			++i;
		} else {
			for (int k = 0; k < 2; ++k, ++i) { if (end() || hex(at()) < 0) throw Bad("hex"); v = v * 16 + hex(at()); }
		}
		if (v > 0x10FFFF) throw Bad("hex");
		return v;
	}
	static bool in(C32 c, const char* set) { for (; *set; ++set) if (c == (unsigned char)*set) return true; return false; }
	static C32 lower(C32 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	P single(C32 c) { Leaf l; l.chars.insert(c); return letters(l); }
	void member(Leaf& l, C32 c) {    // class escape \c
		Set k;
		if (c > 0x7F || !klass(lower(c), k)) throw Bad("escape");
		if (c >= 'A' && c <= 'Z') l.negClasses.push_back(k);
		else { l.chars.insert(k.begin(), k.end()); l.pos = true; }
	}
	P term() {
		C32 c = at();
		switch (c) {
			case '*': case '+': case '?': case '{': throw Bad("nothing to repeat");
			case '^': ++i; return mk(Node::Bm);
			case '$': ++i; return mk(Node::Em);
			case '.': ++i; return mk(Node::Dot);
			case '(': {
				++i;
				int g = groups++;
				P r = alternative();
				if (end() || at() != ')') throw Bad("no closing parenthesis");
				++i;
				P n = mk(Node::Cat, {r});
				n->group = g;
				return n;
			}
			case '[': ++i; return bracket();
			case '\\': {
				++i;
				if (end()) throw Bad("trailing backslash");
				C32 e = s[i++];
				if (e == 'x') return single(hexEscape());
				if (e == 0 || in(e, "|().*+?^$\\[]{}") || (o.andnot && in(e, "&~"))) return single(e);
				Leaf l; member(l, e);
				return letters(l);
			}
		}
		++i;
		return single(c);
	}
	/// One member of a bracket expression: an ordinary character (may begin a range) or not.
	P bracket() {
		Leaf l;
		if (!end() && at() == '^') { l.neg = true; ++i; }
		for (;;) {
			if (end()) throw Bad("no closing bracket");
			C32 c = s[i++];
			if (c == ']') break;
			bool plain = true;
			if (c == '\\') {
				if (end()) throw Bad("trailing backslash");
				C32 e = s[i++];
				if (e == 'x') c = hexEscape();
				else if (e == 0 || in(e, "^[]-\\*+{}()$?.&~")) c = e;
				else { member(l, e); continue; }
			} else if (in(c, "^[-")) plain = false;
			if (plain && !end() && at() == '-') {
				++i;
				if (end()) throw Bad("range");
				C32 d = s[i++];
				if (d == '\\') {
					if (end()) throw Bad("trailing backslash");
					C32 e = s[i++];
					if (e == 'x') d = hexEscape();
					else if (e == 0 || in(e, "^[]-\\*+{}()$?.&~")) d = e;
					else throw Bad("range");
				} else if (in(d, "^[]-")) throw Bad("range");
				for (C32 x = c; x <= d; ++x) l.chars.insert(x);
			} else l.chars.insert(c);
		}
		return letters(l);
	}
};

/// nullptr if the pattern is malformed
inline P parse(const U32& s, const Opts& o, int* groups = nullptr) {
	try { Parser p(s, o); P r = p.parse(); if (groups) *groups = p.groups; return r; } catch (const Bad&) { return nullptr; }
}

// ---- denotation ---------------------------------------------------------------------------------------------
/// Finite sets of strings as minimal acyclic automata.
struct Dag {
	typedef std::map<unsigned char, int> Node;
	std::map<std::pair<bool, Node>, int> ids;
	std::vector<std::pair<bool, Node>> nodes;
	int make(const std::vector<std::string>& sorted, size_t from, size_t to, size_t depth) {
		std::pair<bool, Node> n;
		n.first = from < to && sorted[from].size() == depth;
		if (n.first) ++from;
		while (from < to) {
			size_t e = from;
			while (e < to && sorted[e][depth] == sorted[from][depth]) ++e;
			n.second[(unsigned char)sorted[from][depth]] = make(sorted, from, e, depth + 1);
			from = e;
		}
		auto it = ids.insert({n, (int)nodes.size()});
		if (it.second) nodes.push_back(n);
		return it.first->second;
	}
	int make(std::vector<std::string> v) {
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		return make(v, 0, v.size(), 0);
	}
	void sets(std::vector<std::vector<bool>>& out) const {
		for (auto& n : nodes) {
			std::map<int, std::vector<bool>> m;
			for (auto& e : n.second) { auto& v = m[e.second]; v.resize(256); v[e.first] = true; }
			for (auto& e : m) out.push_back(e.second);
		}
	}
	ref::L lang(ref::Lang& L, int root) const {
		ref::Dfa d; d.k = L.al.k; d.start = root;
		int sink = nodes.size();
		d.tr.assign((sink + 1) * d.k, sink);
		for (int i = 0; i < sink; ++i) {
			d.fin.push_back(nodes[i].first);
			for (auto& e : nodes[i].second) d.tr[i * d.k + L.al.cls[e.first]] = e.second;
		}
		d.fin.push_back(0);
		return L.mk(d);
	}
};

/// The language of one well-formed UTF-8 character, as ranges of bytes.
inline const std::vector<std::vector<std::pair<int, int>>>& wellFormed() {
	static const std::vector<std::vector<std::pair<int, int>>> t = {
		{{0x00, 0x7F}},
		{{0xC2, 0xDF}, {0x80, 0xBF}},
		{{0xE0, 0xE0}, {0xA0, 0xBF}, {0x80, 0xBF}},
		{{0xE1, 0xEC}, {0x80, 0xBF}, {0x80, 0xBF}},
		{{0xED, 0xED}, {0x80, 0x9F}, {0x80, 0xBF}},
		{{0xEE, 0xEF}, {0x80, 0xBF}, {0x80, 0xBF}},
		{{0xF0, 0xF0}, {0x90, 0xBF}, {0x80, 0xBF}, {0x80, 0xBF}},
		{{0xF1, 0xF3}, {0x80, 0xBF}, {0x80, 0xBF}, {0x80, 0xBF}},
		{{0xF4, 0xF4}, {0x80, 0x8F}, {0x80, 0xBF}, {0x80, 0xBF}} };
	return t;
}

class Denote {
public:
	Opts o;
	Dag dag;
	std::map<const Node*, int> roots;
	std::unique_ptr<ref::Lang> lang;
	ref::L dot;
	/// prepares the alphabet of a set of trees
	Denote(const Opts& o, const std::vector<P>& trees): o(o) {
		for (auto& t : trees) collect(t.get());
		std::vector<std::vector<bool>> sets;
		dag.sets(sets);
		if (o.utf8)
			for (auto& w : wellFormed()) for (auto& r : w) { std::vector<bool> v(256); for (int b = r.first; b <= r.second; ++b) v[b] = true; sets.push_back(v); }
		lang.reset(new ref::Lang(ref::Alpha::make(sets)));
		if (o.utf8) {
			dot = lang->none();
			for (auto& w : wellFormed()) { ref::L x = lang->eps(); for (auto& r : w) x = lang->cat(x, range(r)); dot = lang->alt(dot, x); }
		} else dot = lang->bytes();
	}
	ref::L range(std::pair<int, int> r) { std::set<int> s; for (int b = r.first; b <= r.second; ++b) s.insert(lang->al.cls[b]); return lang->set(s); }
	/// texts that consist of characters of the encoding, with marks at the ends
	ref::L texts() {
		ref::L m = lang->star(dot);
		ref::L b = lang->alt(lang->eps(), lang->letter(ref::BM)), e = lang->alt(lang->eps(), lang->letter(ref::EM));
		return lang->cat(lang->cat(b, m), e);
	}
	ref::L eval(const P& p) {
		ref::Lang& L = *lang;
		switch (p->kind) {
			case Node::Empty: return L.eps();
			case Node::Letters: {
				ref::L x = dag.lang(L, roots.at(p.get()));
				return p->neg ? L.diff(dot, x) : x;
			}
			case Node::Dot: return dot;
			case Node::Bm: return L.letter(ref::BM);
			case Node::Em: return L.letter(ref::EM);
			case Node::Cat: { ref::L r = L.eps(); for (auto& k : p->kids) r = L.cat(r, eval(k)); return r; }
			case Node::Alt: { ref::L r = L.none(); for (auto& k : p->kids) r = L.alt(r, eval(k)); return r; }
			case Node::And: { ref::L r = L.all(); for (auto& k : p->kids) r = L.conj(r, eval(k)); return r; }
			case Node::Not: return L.inv(eval(p->kids[0]));
			case Node::Rep: {
				ref::L x = eval(p->kids[0]);
				ref::L r = L.pow(x, p->lo);
				if (p->hi < 0) return L.cat(r, L.star(x));
				ref::L opt = L.alt(x, L.eps());
				for (int i = p->lo; i < p->hi; ++i) r = L.cat(r, opt);
				return r;
			}
		}
		return L.none();
	}
private:
	void collect(const Node* n) {
		if (n->kind == Node::Letters) {
			std::vector<std::string> v;
			for (C32 c : n->chars) { std::string s = encode(c, o.utf8); if (!s.empty()) v.push_back(s); }
			roots[n] = dag.make(v);
		}
		for (auto& k : n->kids) collect(k.get());
	}
};

} // namespace refre
