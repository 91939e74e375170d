// Construction programs over Pire::Fsm: enumeration by size, execution on the real class, and the reference
// language.
#pragma once
#include "product.h"

namespace fx {

using Pire::Fsm; using Pire::TVector; using Pire::ystring;
using ref::L;

enum Op {
	// nullary
	EPS, FALSE_, A, B, STR, ALTS, DOT, BMARK, EMARK,
	// unary
	STAR, NOT, POW0, POW2, POW3, SURR, PREP, APP, ADD_A, ADD_STR, ADD_ALTS, ADD_DOT, ADD_EM,
	SELFCAT, SELFOR, SELFAND,
	// binary
	CAT, OR, AND
};
inline int arity(int op) { return op < STAR ? 0 : op < CAT ? 1 : 2; }
inline const char* opname(int op) {
	static const char* n[] = {"eps", "false", "a", "b", "'ab'", "{a,bc}", "dot", "BM", "EM",
		"star", "not", "x0", "x2", "x3", "surround", "prepend_any", "append_any", "append_a", "append_'ab'", "append_{a,bc}", "append_dot", "append_EM",
		"selfcat", "selfor", "selfand", "cat", "or", "and"};
	return n[op];
}

struct Node { int op; int l, r; };   // l, r: indices into the node pool

/// All expressions up to a size over given operator sets, stored as a DAG pool: ranges by size.
struct Pool {
	std::vector<Node> nodes;
	std::vector<size_t> begin;     // begin[s]..begin[s+1]: expressions of size s (s >= 1)
	std::vector<int> nul, un, bin;

	void build(int maxSize) {
		begin.assign(2, 0);
		for (int op : nul) nodes.push_back({op, -1, -1});
		begin.push_back(nodes.size());
		for (int s = 2; s <= maxSize; ++s) {
			for (int op : un)
				for (size_t i = begin[s - 1]; i < begin[s]; ++i) nodes.push_back({op, (int)i, -1});
			for (int op : bin)
				for (int ls = 1; ls <= s - 2; ++ls)
					for (size_t i = begin[ls]; i < begin[ls + 1]; ++i)
						for (size_t j = begin[s - 1 - ls]; j < begin[s - ls]; ++j)
							nodes.push_back({op, (int)i, (int)j});
			begin.push_back(nodes.size());
		}
	}
	size_t count(int size) const { return begin[size + 1] - begin[size]; }

	std::string text(int i) const {
		const Node& n = nodes[i];
		switch (arity(n.op)) {
			case 0: return opname(n.op);
			case 1: return std::string(opname(n.op)) + "(" + text(n.l) + ")";
			default: return std::string(opname(n.op)) + "(" + text(n.l) + "," + text(n.r) + ")";
		}
	}
};

inline ref::Lang& lang() { static ref::Lang l(ref::Alpha::letters("abc")); return l; }

/// reference language
inline L refl(const Pool& p, int i, std::map<int, L>& memo) {
	auto it = memo.find(i);
	if (it != memo.end()) return it->second;
	ref::Lang& g = lang();
	const Node& n = p.nodes[i];
	L l = n.l >= 0 ? refl(p, n.l, memo) : L(), r = n.r >= 0 ? refl(p, n.r, memo) : L(), x;
	auto alts = [&] { return g.alt(g.str("a"), g.str("bc")); };
	switch (n.op) {
		case EPS: x = g.eps(); break;
		case FALSE_: x = g.none(); break;
		case A: x = g.str("a"); break;
		case B: x = g.str("b"); break;
		case STR: x = g.str("ab"); break;
		case ALTS: x = alts(); break;
		case DOT: x = g.bytes(); break;
		case BMARK: x = g.letter(ref::BM); break;
		case EMARK: x = g.letter(ref::EM); break;
		case STAR: x = g.star(l); break;
		case NOT: x = g.inv(l); break;
		case POW0: x = g.eps(); break;
		case POW2: x = g.cat(l, l); break;
		case POW3: x = g.pow(l, 3); break;
		case SURR: x = g.surround(l); break;
		case PREP: x = g.cat(g.all(), l); break;
		case APP: x = g.cat(l, g.all()); break;
		case ADD_A: x = g.cat(l, g.str("a")); break;
		case ADD_STR: x = g.cat(l, g.str("ab")); break;
		case ADD_ALTS: x = g.cat(l, alts()); break;
		case ADD_DOT: x = g.cat(l, g.bytes()); break;
		case ADD_EM: x = g.cat(l, g.letter(ref::EM)); break;
		case SELFCAT: x = g.cat(l, l); break;
		case SELFOR: case SELFAND: x = l; break;
		case CAT: x = g.cat(l, r); break;
		case OR: x = g.alt(l, r); break;
		case AND: x = g.conj(l, r); break;
	}
	memo[i] = x;
	return x;
}

inline TVector<ystring> altStrings() { TVector<ystring> v; v.push_back("a"); v.push_back("bc"); return v; }

/// what is done to every operand before it is used
enum Repr { AS_IS, CANONICAL, DETERMINED, NO_EPSILONS, PACKED, NO_DEAD_ENDS, REPRS };
inline const char* reprname(int r) {
	static const char* n[] = {"as is", "canonized", "determined", "without empty transitions", "packed and unpacked", "without dead ends"};
	return n[r];
}
inline Fsm build(const Pool& p, int i, int repr = AS_IS);
inline Fsm operand(const Pool& p, int i, int repr) {
	Fsm f = build(p, i, repr);
	switch (repr) {
		case CANONICAL: f.Canonize(); break;
		case DETERMINED: f.Determine(); break;
		case NO_EPSILONS: f.RemoveEpsilons(); break;
		case PACKED: f.Canonize(); f.Unsparse(); f.Sparse(); break;
		case NO_DEAD_ENDS: f.Canonize(); f.RemoveDeadEnds(); break;
	}
	return f;
}

inline Fsm build(const Pool& p, int i, int repr) {
	const Node& n = p.nodes[i];
	Fsm f;
	switch (n.op) {
		case EPS: return f;
		case FALSE_: return Fsm::MakeFalse();
		case A: f.Append('a'); return f;
		case B: f.Append('b'); return f;
		case STR: f.Append(ystring("ab")); return f;
		case ALTS: f.AppendStrings(altStrings()); return f;
		case DOT: f.AppendDot(); return f;
		case BMARK: f.AppendSpecial(Pire::BeginMark); return f;
		case EMARK: f.AppendSpecial(Pire::EndMark); return f;
	}
	f = operand(p, n.l, repr);
	switch (n.op) {
		case STAR: f.Iterate(); return f;
		case NOT: f.Complement(); return f;
		case POW0: f *= 0; return f;
		case POW2: f *= 2; return f;
		case POW3: return f * 3;
		case SURR: f.Surround(); return f;
		case PREP: f.PrependAnything(); return f;
		case APP: f.AppendAnything(); return f;
		case ADD_A: f.Append('a'); return f;
		case ADD_STR: f.Append(ystring("ab")); return f;
		case ADD_ALTS: f.AppendStrings(altStrings()); return f;
		case ADD_DOT: f.AppendDot(); return f;
		case ADD_EM: f.AppendSpecial(Pire::EndMark); return f;
		case SELFCAT: f += f; return f;
		case SELFOR: f |= f; return f;
		case SELFAND: f &= f; return f;
	}
	Fsm g = operand(p, n.r, repr);
	switch (n.op) {
		case CAT: f += g; break;
		case OR: f |= g; break;
		case AND: f &= g; break;
	}
	return f;
}

} // namespace fx
