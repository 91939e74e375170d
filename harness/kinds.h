// The scanner kinds, their construction and conversion, and an exploration of half-final scanners, shared by the
// scanner harnesses.
#pragma once
#include "product.h"
#include <pire/extra.h>
#include <pire/scanners/half_final.h>
#include <sstream>

namespace kinds {

using Pire::Fsm; using ref::L;
using Pire::Scanner; using Pire::NonrelocScanner; using Pire::ScannerNoMask; using Pire::NonrelocScannerNoMask;
using Pire::SimpleScanner; using Pire::SlowScanner;
using Pire::HalfFinalScanner; using Pire::HalfFinalScannerNoMask; using Pire::NonrelocHalfFinalScanner; using Pire::NonrelocHalfFinalScannerNoMask;

template<class Sc> inline Sc compile(const Fsm& f) { Fsm x(f); return x.Compile<Sc>(); }
template<class Sc> inline Sc compileHF(const Fsm& f) { return Sc(f); }
template<class Sc> struct IsHF { static const bool v = false; };
template<> struct IsHF<HalfFinalScanner> { static const bool v = true; };
template<> struct IsHF<HalfFinalScannerNoMask> { static const bool v = true; };
template<> struct IsHF<NonrelocHalfFinalScanner> { static const bool v = true; };
template<> struct IsHF<NonrelocHalfFinalScannerNoMask> { static const bool v = true; };

template<class Sc> const char* name();
#define KIND_NAME(X) template<> inline const char* name<X>() { return #X; }
KIND_NAME(Scanner) KIND_NAME(NonrelocScanner) KIND_NAME(ScannerNoMask) KIND_NAME(NonrelocScannerNoMask)
KIND_NAME(SimpleScanner) KIND_NAME(SlowScanner)
KIND_NAME(HalfFinalScanner) KIND_NAME(HalfFinalScannerNoMask) KIND_NAME(NonrelocHalfFinalScanner) KIND_NAME(NonrelocHalfFinalScannerNoMask)

/// the saved form of a scanner
template<class Sc> std::string image(const Sc& sc) { std::ostringstream o; sc.Save(&o); return o.str(); }

/// patterns reported as accepted
template<class Sc> std::vector<size_t> accepted(const Sc& sc, const typename Sc::State& st) {
	typename Sc::State s = st;
	auto p = sc.AcceptedRegexps(s);
	return std::vector<size_t>(p.first, p.second);
}

/// Is the language closed under putting anything before it / behind it?
inline bool leftClosed(ref::Lang& g, const L& l) { return g.cat(g.all(), l) == l; }
inline bool rightClosed(ref::Lang& g, const L& l) { return g.cat(l, g.all()) == l; }

/// Half-final scanner against the languages of its patterns, on all texts of bytes and begin marks that end with
/// one end mark: the patterns reported afterwards are exactly the matching ones.
template<class Sc>
std::string compareHF(const Sc& sc, const std::vector<L>& ls, const ref::Alpha& al) {
	typedef typename Sc::State St;
	struct Node { St st; std::vector<int> r; int parent; short letter; };
	std::map<std::tuple<size_t, std::vector<size_t>, std::vector<int>>, int> seen;
	std::vector<Node> q;
	auto word = [&](int i) {
		std::vector<int> w;
		for (; q[i].parent >= 0; i = q[i].parent) w.push_back(q[i].letter);
		std::reverse(w.begin(), w.end());
		return w;
	};
	auto push = [&](const St& st, const std::vector<int>& r, int parent, int letter) {
		if (seen.insert({std::make_tuple(sc.StateIndex(st), accepted(sc, st), r), 0}).second)
			q.push_back(Node{st, r, parent, (short)letter});
	};
	St s0;
	sc.Initialize(s0);
	std::vector<int> r0;
	for (auto& l : ls) r0.push_back(l->start);
	push(s0, r0, -1, 0);
	for (size_t i = 0; i < q.size(); ++i) {
		Node nd = q[i];
		++mc::ctx().st.states;
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			St st = nd.st;
			Pire::Step(sc, st, (Pire::Char)l);
			++mc::ctx().st.transitions;
			std::vector<int> r = nd.r;
			for (size_t k = 0; k < ls.size(); ++k) r[k] = ls[k]->next(r[k], al.cls[l]);
			if (l == ref::EM) {
				std::vector<size_t> want;
				for (size_t k = 0; k < ls.size(); ++k) if (ls[k]->fin[r[k]]) want.push_back(k);
				auto got = accepted(sc, st);
				if (got != want) {
					std::string e = "text " + mc::showLetters(word(i)) + "<EM>: patterns {";
					for (auto x : got) e += std::to_string(x) + " ";
					e += "} reported, {";
					for (auto x : want) e += std::to_string(x) + " ";
					return e + "} match";
				}
			} else push(st, r, (int)i, l);
		}
	}
	for (size_t i : {q.size() - 1, q.size() / 2}) {
		St st;
		auto w = word(i);
		mc::feed(sc, st, w);
		++mc::ctx().st.replays;
		if (sc.StateIndex(st) != sc.StateIndex(q[i].st) || accepted(sc, st) != accepted(sc, q[i].st))
			return "replay of " + mc::showLetters(w) + " through Run() gives another state than single steps";
	}
	if (q.size() > 2) ++mc::ctx().st.nontrivial;
	return "";
}

/// A (glued) scanner against the languages of its patterns, on all letter sequences: verdict, list of accepted
/// patterns, number of patterns and dead states (sound; exact if asked for).
template<class Sc>
std::string compareMulti(const Sc& sc, const std::vector<L>& ls, const ref::Alpha& al, bool exactDead = false) {
	typedef typename Sc::State St;
	struct Node { St st; std::vector<int> r; int parent; short letter; };
	std::map<std::pair<size_t, std::vector<int>>, int> seen;
	std::vector<Node> q;
	std::vector<std::vector<char>> live;
	for (auto& l : ls) live.push_back(l->live());
	auto word = [&](int i) {
		std::vector<int> w;
		for (; q[i].parent >= 0; i = q[i].parent) w.push_back(q[i].letter);
		std::reverse(w.begin(), w.end());
		return w;
	};
	auto push = [&](const St& st, const std::vector<int>& r, int parent, int letter) {
		if (seen.insert({std::make_pair(sc.StateIndex(st), r), 0}).second) q.push_back(Node{st, r, parent, (short)letter});
	};
	if (sc.RegexpsCount() != ls.size()) return "holds " + std::to_string(sc.RegexpsCount()) + " patterns, not " + std::to_string(ls.size());
	St s0;
	sc.Initialize(s0);
	std::vector<int> r0;
	for (auto& l : ls) r0.push_back(l->start);
	push(s0, r0, -1, 0);
	for (size_t i = 0; i < q.size(); ++i) {
		Node nd = q[i];
		++mc::ctx().st.states;
		std::vector<size_t> want, got = accepted(sc, nd.st);
		bool lv = false;
		for (size_t k = 0; k < ls.size(); ++k) { if (ls[k]->fin[nd.r[k]]) want.push_back(k); lv |= live[k][nd.r[k]]; }
		std::sort(got.begin(), got.end());
		if (got != want || (bool)sc.Final(nd.st) != !want.empty()) {
			std::string e = "text " + mc::showLetters(word(i)) + ": " + (sc.Final(nd.st) ? "match" : "no match") + ", patterns {";
			for (auto x : got) e += std::to_string(x) + " ";
			e += "} reported, {";
			for (auto x : want) e += std::to_string(x) + " ";
			return e + "} match";
		}
		if (sc.Dead(nd.st) && lv) return "text " + mc::showLetters(word(i)) + ": state reported dead although acceptance is reachable";
		if (exactDead && !sc.Dead(nd.st) && !lv) return "text " + mc::showLetters(word(i)) + ": state not reported dead although no continuation is accepted";
		for (int l = 0; l < 260; ++l) {
			if (l == 256 || l == 257) continue;
			St st = nd.st;
			Pire::Step(sc, st, (Pire::Char)l);
			++mc::ctx().st.transitions;
			std::vector<int> r = nd.r;
			for (size_t k = 0; k < ls.size(); ++k) r[k] = ls[k]->next(r[k], al.cls[l]);
			push(st, r, (int)i, l);
		}
	}
	for (size_t i : {q.size() - 1, q.size() / 2}) {
		St st;
		auto w = word(i);
		mc::feed(sc, st, w);
		++mc::ctx().st.replays;
		if (sc.StateIndex(st) != sc.StateIndex(q[i].st)) return "replay of " + mc::showLetters(w) + " through Run() gives another state than single steps";
	}
	if (q.size() > 2) ++mc::ctx().st.nontrivial;
	return "";
}

} // namespace kinds
