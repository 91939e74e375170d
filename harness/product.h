// Product exploration: runs a real pire scanner in lock-step with a reference DFA over every letter from every
// reachable pair of states.  Visiting all pairs decides equality of the two languages for texts of any length.
#pragma once
#include "mc.h"
#include "ref.h"
#include <pire.h>
#include <unordered_map>

namespace mc {

inline std::string showLetters(const std::vector<int>& w) {
	std::string r;
	for (int l : w) {
		if (l == ref::BM) r += "<BM>";
		else if (l == ref::EM) r += "<EM>";
		else if (l >= 33 && l < 127) r += (char)l;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", l); r += b; }
	}
	return r.empty() ? "<empty>" : r;
}

// ---- keys of scanner states -------------------------------------------------------------------------------
template<class Sc> struct StateKey {
	typedef size_t type;
	static type get(const Sc& sc, const typename Sc::State& st) { return sc.StateIndex(st); }
};
template<> struct StateKey<Pire::SlowScanner> {
	typedef std::vector<size_t> type;
	static type get(const Pire::SlowScanner&, const Pire::SlowScanner::State& st) {
		type v(st.states.begin(), st.states.end());
		std::sort(v.begin(), v.end());
		return v;
	}
};

struct ProdOpts {
	bool checkDead = false;        // Dead() must be exact (implementation state dead <=> reference state not live)
	bool deadSound = false;        // Dead() only has to be sound
	bool checkAccepted = true;     // AcceptedRegexps is nonempty iff Final
	size_t maxStates = 2000000;
	bool replay = true;            // re-run witnesses from scratch through Run()
	const ref::Dfa* domain = nullptr; // only texts of this language are judged (and extended while viable)
	int marks = 2;                 // 2: marks anywhere; 0: bytes only; 1: only as first (BM) / last (EM) letter
};

template<class Sc> bool hasAccepted(const Sc& sc, const typename Sc::State& st) {
	auto p = sc.AcceptedRegexps(st);
	return p.first != p.second;
}

/// Feeds a word through Run()/Step() from the initial state: byte stretches go through Run.
template<class Sc>
void feed(const Sc& sc, typename Sc::State& st, const std::vector<int>& w) {
	sc.Initialize(st);
	std::string buf;
	auto flush = [&] { if (!buf.empty()) { Pire::Run(sc, st, buf.data(), buf.data() + buf.size()); buf.clear(); } };
	for (int l : w) {
		if (l < 256) buf += (char)l;
		else { flush(); Pire::Step(sc, st, (Pire::Char)l); }
	}
	flush();
}

/// Returns an empty string if the scanner accepts exactly the reference language, else a description with the
/// shortest distinguishing text.
template<class Sc>
std::string compare(const Sc& sc, const ref::Dfa& d, const ref::Alpha& al, const ProdOpts& o = ProdOpts()) {
	typedef StateKey<Sc> K;
	typedef typename Sc::State St;
	struct Node { St st; int r; int d; int parent; short letter; char phase; };
	std::map<std::tuple<typename K::type, int, int, char>, int> seen;
	std::vector<char> viable;
	if (o.domain) viable = o.domain->live();
	std::vector<Node> q;
	St s0;
	sc.Initialize(s0);
	std::vector<char> live = d.live();
	auto word = [&](int i) {
		std::vector<int> w;
		for (; q[i].parent >= 0; i = q[i].parent) w.push_back(q[i].letter);
		std::reverse(w.begin(), w.end());
		return w;
	};
	auto push = [&](const St& st, int r, int dm, int parent, int letter, char phase) {
		auto key = std::make_tuple(K::get(sc, st), r, dm, phase);
		if (seen.insert({key, (int)q.size()}).second)
			q.push_back(Node{st, r, dm, parent, (short)letter, phase});
	};
	push(s0, d.start, o.domain ? o.domain->start : 0, -1, 0, 0);
	static const std::vector<int> letters = [] { std::vector<int> v; for (int i = 0; i < 256; ++i) v.push_back(i); v.push_back(ref::BM); v.push_back(ref::EM); return v; }();
	for (size_t i = 0; i < q.size(); ++i) {
		if (i > o.maxStates) return "product exceeds the state bound";
		Node nd = q[i];
		++ctx().st.states;
		bool f = sc.Final(nd.st);
		bool judged = !o.domain || o.domain->fin[nd.d];
		if (judged && f != (bool)d.fin[nd.r])
			return std::string("text ") + showLetters(word(i)) + ": scanner says " + (f ? "match" : "no match") + ", reference says the opposite";
		if (judged && o.checkAccepted && hasAccepted(sc, nd.st) != f)
			return "text " + showLetters(word(i)) + ": list of accepted patterns disagrees with the verdict";
		if (o.checkDead || o.deadSound) {
			bool dd = sc.Dead(nd.st);
			if (dd && live[nd.r]) return "text " + showLetters(word(i)) + ": state reported dead although acceptance is reachable";
			if (!dd && !live[nd.r] && o.checkDead) return "text " + showLetters(word(i)) + ": state not reported dead although no continuation is accepted";
		}
		if (nd.phase == 2) continue;
		for (int l : letters) {
			char ph = 0;
			if (l >= 256) {
				if (o.marks == 0) continue;
				if (o.marks == 1) {
					if (l == ref::BM) { if (i != 0) continue; ph = 1; }
					else ph = 2;
				}
			} else if (o.marks == 1) ph = 1;
			int dm = 0;
			if (o.domain && !viable[dm = o.domain->next(nd.d, al.cls[l])]) continue;
			St st = nd.st;
			Pire::Step(sc, st, (Pire::Char)l);
			++ctx().st.transitions;
			push(st, d.next(nd.r, al.cls[l]), dm, (int)i, l, ph);
		}
	}
	if (o.replay && !q.empty()) {
		// conformance replay: the deepest and a middle witness, end to end through Run()
		for (size_t i : {q.size() - 1, q.size() / 2}) {
			St st;
			std::vector<int> w = word(i);
			feed(sc, st, w);
			++ctx().st.replays;
			if ((bool)sc.Final(st) != (bool)sc.Final(q[i].st) || K::get(sc, st) != K::get(sc, q[i].st))
				return "replay of " + showLetters(w) + " through Run() gives another state than single steps";
		}
	}
	if (q.size() > 2) ++ctx().st.nontrivial;
	return "";
}

} // namespace mc
