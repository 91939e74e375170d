// P10: prefix and suffix searches return the true longest and shortest match ends.
//
// Every construction program of a size and every raw automaton, all texts up to a length, longer texts with a
// filler and up to two other bytes at every alignment: the four searches under all mark options, for every scanner
// kind, against the reference language read prefix by prefix.
#include "fsmexpr.h"
#include "raw.h"
#include "kinds.h"
using namespace kinds;

static char *page, *pend;
static void makePage() {
	size_t ps = 4096;
	char* m = (char*)mmap(0, 3 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m + ps, ps, PROT_READ | PROT_WRITE);
	page = m + ps; pend = page + ps;
}

struct Want { long longest = -1, shortest = -1; };
/// fin[i]: is the text's prefix of length i accepted; whole: the text followed by the mark
static Want want(const std::vector<char>& fin, bool through, bool whole) {
	Want w;
	for (size_t i = 0; i < fin.size(); ++i) if (fin[i]) { w.longest = i; if (w.shortest < 0) w.shortest = i; }
	long n = fin.size() - 1;
	if (through && whole) { w.longest = n; if (w.shortest < 0) w.shortest = n; }
	return w;
}
static std::string flags(bool a, bool b, const char* x, const char* y) { return std::string(a ? x : "") + (b ? y : ""); }

struct Ref { L l; const ref::Alpha* al; };

template<class Sc> struct Checker {
	const Sc& sc; const Sc& rev; const ref::Dfa* d; const ref::Dfa* r; const ref::Alpha& al; std::string what;
	bool bad = false;
	void fail(const std::string& fn, const std::string& t, long got, long exp) {
		if (bad) return;
		bad = true;
		auto s = [](long x) { return x < 0 ? std::string("nothing") : "length " + std::to_string(x); };
		mc::violation(what + ": " + fn + " of " + mc::show(t) + " is " + s(got) + ", not " + s(exp));
	}
	/// t lies at b
	void text(const std::string& t, const char* b) {
		size_t n = t.size();
		const char* e = b + n;
		for (int m = 0; m < 4; ++m) {
			bool first = m & 1, last = m & 2;
			{
				// forward: by the reference language, or by single steps if there is none
				std::vector<char> fin;
				bool whole;
				if (d) {
					int s = d->start;
					if (first) s = d->next(s, al.cls[ref::BM]);
					fin.push_back(d->fin[s]);
					for (unsigned char c : t) { s = d->next(s, al.cls[c]); fin.push_back(d->fin[s]); }
					whole = d->fin[d->next(s, al.cls[ref::EM])];
				} else {
					typename Sc::State s; sc.Initialize(s);
					if (first) Pire::Step(sc, s, Pire::BeginMark);
					fin.push_back(sc.Final(s));
					for (unsigned char c : t) { Pire::Step(sc, s, c); fin.push_back(sc.Final(s)); }
					Pire::Step(sc, s, Pire::EndMark);
					whole = sc.Final(s);
				}
				Want w = want(fin, last, whole);
				const char* p = Pire::LongestPrefix(sc, b, e, first, last);
				const char* q = Pire::ShortestPrefix(sc, b, e, first, last);
				mc::ctx().st.states += 2;
				if ((p ? p - b : -1) != w.longest) fail("LongestPrefix" + flags(first, last, " after begin mark", " through end mark"), t, p ? p - b : -1, w.longest);
				if ((q ? q - b : -1) != w.shortest) fail("ShortestPrefix" + flags(first, last, " after begin mark", " through end mark"), t, q ? q - b : -1, w.shortest);
				if (m == 0 && Pire::Matches(sc, b, e) != (bool)fin.back()) mc::violation(what + ": Matches(" + mc::show(t) + ") is wrong");
				if (m == 3) {
					typename Sc::State s0; sc.Initialize(s0);
					bool x = Pire::Runner(sc).Begin().Run(b, e).End(), y = !!Pire::Runner(sc, s0).Begin().Run(b, n).Step(Pire::EndMark);
					if (x != whole || y != whole) mc::violation(what + ": Runner on " + mc::show(t) + " is wrong");
				}
			}
			{
				// backward
				std::vector<char> fin;
				bool whole;
				if (r) {
					int s = r->start;
					if (first) s = r->next(s, al.cls[ref::EM]);
					fin.push_back(r->fin[s]);
					for (size_t i = n; i--;) { s = r->next(s, al.cls[(unsigned char)t[i]]); fin.push_back(r->fin[s]); }
					whole = r->fin[r->next(s, al.cls[ref::BM])];
				} else {
					typename Sc::State s; rev.Initialize(s);
					if (first) Pire::Step(rev, s, Pire::EndMark);
					fin.push_back(rev.Final(s));
					for (size_t i = n; i--;) { Pire::Step(rev, s, (unsigned char)t[i]); fin.push_back(rev.Final(s)); }
					Pire::Step(rev, s, Pire::BeginMark);
					whole = rev.Final(s);
				}
				Want w = want(fin, last, whole);
				const char* p = Pire::LongestSuffix(rev, e - 1, b - 1, first, last);
				const char* q = Pire::ShortestSuffix(rev, e - 1, b - 1, first, last);
				mc::ctx().st.states += 2;
				if ((p ? e - 1 - p : -1) != w.longest) fail("LongestSuffix" + flags(first, last, " after end mark", " through begin mark"), t, p ? e - 1 - p : -1, w.longest);
				if ((q ? e - 1 - q : -1) != w.shortest) fail("ShortestSuffix" + flags(first, last, " after end mark", " through begin mark"), t, q ? e - 1 - q : -1, w.shortest);
			}
		}
	}
};

/// all texts over the letters up to a length, at a few placements
template<class Sc> void shortTexts(const Sc& f, const Sc& b, const L* l, const L* r, const ref::Alpha& al, const std::string& what, int len, const std::string& letters = "abx") {
	Checker<Sc> c{f, b, l ? l->get() : nullptr, r ? r->get() : nullptr, al, what};
	uint64_t n = 1;
	for (int k = 0; k <= len; ++k) {
		for (uint64_t i = 0; i < n; ++i) {
			std::string t;
			uint64_t x = i;
			for (int j = 0; j < k; ++j) { t += letters[x % letters.size()]; x /= letters.size(); }
			char* p = pend - k - (i % 5 == 0 ? 0 : i % 3);
			memset(pend - 64, letters[0], 64);
			memcpy(p, t.data(), k);
			c.text(t, p);
		}
		n *= letters.size();
	}
	++mc::ctx().st.nontrivial;
}
/// longer texts: filler and up to two others, at every alignment
template<class Sc> void longTexts(const Sc& f, const Sc& b, const L* l, const L* r, const ref::Alpha& al, const std::string& what, const std::string& letters, size_t L0, size_t L1, size_t aligns) {
	Checker<Sc> c{f, b, l ? l->get() : nullptr, r ? r->get() : nullptr, al, what};
	for (size_t n = L0; n <= L1; ++n) {
		std::string t(n, letters[0]);
		auto at = [&] { for (size_t a = 0; a < aligns; ++a) { char* p = pend - 48 - n + a; memset(p - 16, letters[1], n + 48); memcpy(p, t.data(), n); c.text(t, p); } memcpy(pend - n, t.data(), n); c.text(t, pend - n); };
		at();
		for (size_t p = 0; p < n; ++p) for (size_t x = 1; x < letters.size(); ++x) {
			t[p] = letters[x];
			at();
			for (size_t q = p + 1; q < n; ++q) for (size_t y = 1; y < letters.size(); ++y) { t[q] = letters[y]; if ((p + q) % 3 == 0 || n < 20) at(); t[q] = letters[0]; }
			t[p] = letters[0];
		}
	}
	++mc::ctx().st.nontrivial;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	makePage();
	ref::Lang& g = fx::lang();
	std::map<int, L> memo;
	auto explore = [&](const Fsm& f, const L& l, int len) {
		Fsm b(f);
		b.Reverse();
		L r = g.rev(l);
		auto kind = [&](auto* tag, const char* n) {
			typedef std::remove_pointer_t<decltype(tag)> Sc;
			shortTexts(compile<Sc>(f), compile<Sc>(b), &l, &r, g.al, n, len);
		};
		kind((Scanner*)0, "Scanner"); kind((NonrelocScanner*)0, "NonrelocScanner"); kind((ScannerNoMask*)0, "ScannerNoMask");
		kind((SimpleScanner*)0, "SimpleScanner"); kind((SlowScanner*)0, "SlowScanner");
		// a half-final scanner has match ends of its own: by single steps
		auto half = [&](const HalfFinalScanner& x, const HalfFinalScanner& y, const char* n) { shortTexts(x, y, nullptr, nullptr, g.al, n, len); };
		half(HalfFinalScanner(f), HalfFinalScanner(b), "HalfFinalScanner");
		for (int k = 0; k < 2; ++k) {
			Pire::HalfFinalFsm x(f), y(b);
			if (k) { x.MakeGreedyCounter(false); y.MakeGreedyCounter(false); } else { x.MakeNonGreedyCounter(true, false); y.MakeNonGreedyCounter(true, false); }
			half(HalfFinalScanner(x), HalfFinalScanner(y), k ? "HalfFinalScanner with a greedy counter" : "HalfFinalScanner with a non-greedy counter");
		}
	};
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::STR, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR};
	full.build(3);
	mc::phase("expr", full.nodes.size(), [&](uint64_t i) { return full.text(i); }, [&](uint64_t i) {
		explore(fx::build(full, i), fx::refl(full, i, memo), th ? 6 : 4);
		if (i % 199 == 3) mc::sample(full.text(i));
	});
	fx::Pool red;
	red.nul = {fx::A, fx::B, fx::BMARK, fx::EMARK};
	red.un = {fx::STAR, fx::NOT, fx::SURR};
	red.bin = {fx::CAT, fx::OR};
	red.build(4);
	std::map<int, L> memo2;
	mc::phase("expr reduced", red.nodes.size() - red.begin[4], [&](uint64_t i) { return red.text(red.begin[4] + i); }, [&](uint64_t i) {
		explore(fx::build(red, red.begin[4] + i), fx::refl(red, red.begin[4] + i, memo2), th ? 5 : 4);
	});
	raw::AllNfa n2{2, {'a', 'b'}};
	mc::phase("nfa 2 states a,b", n2.count(), [&](uint64_t i) { return n2.get(i).text(); }, [&](uint64_t i) {
		raw::Nfa a = n2.get(i);
		explore(a.build(), a.lang(g), th ? 6 : 4);
	});
	raw::AllNfa n3{3, {'a'}};
	mc::phase("nfa 3 states a", n3.count(), [&](uint64_t i) { return n3.get(i).text(); }, [&](uint64_t i) {
		raw::Nfa a = n3.get(i);
		explore(a.build(), a.lang(g), th ? 6 : 4);
	});
	// long texts, so that whole words and shortcuts are taken
	std::map<int, L> memo3;
	fx::Pool sm;
	sm.nul = {fx::EPS, fx::A, fx::STR, fx::DOT, fx::EMARK};
	sm.un = {fx::STAR, fx::NOT, fx::SURR, fx::PREP, fx::APP};
	sm.bin = {fx::CAT, fx::OR};
	sm.build(3);
	mc::phase("long texts", sm.nodes.size() * 5, [&](uint64_t i) { return sm.text(i / 5) + " kind " + std::to_string(i % 5); }, [&](uint64_t i) {
		Fsm f = fx::build(sm, i / 5), b(f);
		L l = fx::refl(sm, i / 5, memo3), r = g.rev(l);
		b.Reverse();
		auto kind = [&](auto* tag, const char* n) {
			typedef std::remove_pointer_t<decltype(tag)> Sc;
			Sc s1(compile<Sc>(f)), s2(compile<Sc>(b));
			for (const char* let : {"xab", "axb"}) {
				longTexts(s1, s2, &l, &r, g.al, n, let, 14, th ? 24 : 18, 2);
				if (th) longTexts(s1, s2, &l, &r, g.al, n, let, 40, 41, 16);
			}
			longTexts(s1, s2, &l, &r, g.al, n, "xa", 36, 36, 8);
			longTexts(s1, s2, &l, &r, g.al, n, "xa", 40, 40, 16);    // a vector word to skip and a machine word behind it
		};
		switch (i % 5) {
			case 0: kind((Scanner*)0, "Scanner"); break;
			case 1: kind((NonrelocScanner*)0, "NonrelocScanner"); break;
			case 2: kind((ScannerNoMask*)0, "ScannerNoMask"); break;
			case 3: kind((SimpleScanner*)0, "SimpleScanner"); break;
			case 4: { HalfFinalScanner s1(f), s2(b); longTexts(s1, s2, nullptr, nullptr, g.al, "HalfFinalScanner", "xab", 15, 17, 2); break; }
		}
	});
	return mc::finish();
}
