// P17: the slow capturing scanner chooses the span a backtracking matcher would choose.
//
// All patterns with groups up to a length over token alphabets with greedy and non-greedy repetitions, all texts up
// to a length; the reference is a backtracking matcher that tries the starting points from left to right,
// alternatives in order and repetitions as written.
#include "grp.h"
#include <pire/pire.h>
#include <pire/extra.h>
#include <functional>

using Pire::SlowCapturingScanner;

/// A backtracking matcher: alternatives in order, repetitions greedy or not as written; calls k at every way to
/// match, most preferred first, until k returns true.
struct Back {
	std::vector<int> w; int group; int b = -1, e = -1; long budget = 2000000;
	typedef std::function<bool(int)> K;
	bool go(const grp::P& n, int p, const K& k) {
		if (--budget < 0) return true;
		switch (n->kind) {
			case grp::LETTERS: return p < (int)w.size() && (n->mask >> w[p] & 1) && k(p + 1);
			case grp::CAT: return cat(n, 0, p, k);
			case grp::ALT: for (auto& x : n->sub) if (go(x, p, k)) return true; return false;
			case grp::GROUP: {
				if (n->group != group) return go(n->sub[0], p, k);
				int ob = b, oe = e;
				if (go(n->sub[0], p, [&](int q) { int b1 = b, e1 = e; if (b < 0) { b = p; e = q; } if (k(q)) return true; b = b1; e = e1; return false; })) return true;
				b = ob; e = oe;
				return false;
			}
			case grp::REP: return rep(n, 0, p, -1, k);
		}
		return false;
	}
	bool cat(const grp::P& n, size_t i, int p, const K& k) {
		if (i == n->sub.size()) return k(p);
		return go(n->sub[i], p, [&, i](int q) { return cat(n, i + 1, q, k); });
	}
	bool rep(const grp::P& n, int i, int p, int last, const K& k) {
		bool may = n->hi < 0 || i < n->hi, stop = i >= n->lo;
		if (i > n->lo && p == last) return k(p);      // an empty round is the last one
		auto more = [&] { return may && go(n->sub[0], p, [&, i, p](int q) { return rep(n, i + 1, q, p, k); }); };
		if (!stop) return more();
		if (n->greedy) return more() || k(p);
		return k(p) || more();
	}
};

/// no repetition of something that matches the empty text: what an empty round captures is not defined
static bool plain(const grp::P& n) {
	for (auto& x : n->sub) if (!plain(x)) return false;
	return !(n->kind == grp::REP && grp::nullable(n->sub[0]));
}

static int wrongs;
static void explore(const std::string& p, int group, int len, bool utf8 = false) {
	grp::P tree = grp::parse(p);
	wrongs = 0;
	bool anchored = p[0] == '^', exact = plain(tree);
	Pire::Fsm fsm;
	try {
		Pire::Lexer lx(p.data(), p.data() + p.size());
		lx.AddFeature(Pire::Features::Capture(group));
		if (utf8) lx.SetEncoding(Pire::Encodings::Utf8());
		fsm = lx.Parse();
	} catch (const Pire::Error& e) { mc::violation(std::string("rejected: ") + e.what()); return; }
	fsm.Surround();
	SlowCapturingScanner sc = fsm.Compile<SlowCapturingScanner>(), copy(sc);
	auto get = [&](const SlowCapturingScanner& s, const SlowCapturingScanner::State& st, int& b, int& e) {
		SlowCapturingScanner::SingleState f;
		if (!s.GetCapture(st, f)) { b = e = -1; return; }
		b = (int)f.GetBegin() + 1; e = (int)f.GetEnd() + 1;
	};
	std::function<void(const SlowCapturingScanner::State&, std::string)> walk = [&](const SlowCapturingScanner::State& st, std::string t) {
		++mc::ctx().st.states;
		Back m; m.group = group;
		m.w.push_back(3); for (char c : t) m.w.push_back(c - 'a'); m.w.push_back(4);
		bool match = false; std::set<std::pair<int, int>> all; int pb = -1, pe = -1; int n = (int)t.size() + 1;      // the marks have no width
		for (int s = anchored ? 0 : 1; s <= (int)m.w.size(); ++s) {
			m.b = m.e = -1;
			m.go(tree, s, [&](int) { if (!match) { match = true; pb = m.b < 0 ? -1 : std::min(std::max(m.b, 1), n); pe = m.b < 0 ? -1 : std::min(std::max(m.e, 1), n); } if (!exact) all.insert({m.b, m.e}); return exact; });
			if (match && exact) break;
		}
		auto bad = [&](const std::string& x) { if (!wrongs++) mc::violation("text '" + t + "': " + x); };
		if (m.budget < 0) { mc::count("texts too ambiguous for the reference"); return; }
		int gb, ge;
		get(sc, st, gb, ge);
		std::string got = gb < 0 ? "nothing" : "span " + std::to_string(gb) + ".." + std::to_string(ge);
		if (exact) {
			if (gb != pb || ge != pe) bad("expected " + (pb < 0 ? std::string("nothing") : "span " + std::to_string(pb) + ".." + std::to_string(pe)) + ", got " + got);
			if (pb >= 0) ++mc::ctx().st.nontrivial;
		} else if (!match) { if (gb >= 0) bad("no match, but " + got); }
		if ((int)t.size() == len && !wrongs) {
			// at once, with a copy, in a state used before
			SlowCapturingScanner::State r; copy.Initialize(r);
			Pire::Run(copy, r, t.data(), t.data() + t.size());
			int rb, re; get(copy, r, rb, re);
			if (rb != gb || re != ge) bad("a run with a copy differs from single steps");
		}
		if ((int)t.size() == len || wrongs) return;
		for (char c = 'a'; c <= 'c'; ++c) {
			auto s2 = st;
			Pire::Step(sc, s2, (Pire::Char)c);
			++mc::ctx().st.transitions;
			walk(s2, t + c);
		}
	};
	SlowCapturingScanner::State st; sc.Initialize(st);
	walk(st, "");
}

struct Item { std::string p; int group; };
static std::string show(const Item& x) { return "/" + x.p + "/ group " + std::to_string(x.group); }

static std::vector<Item> family(const std::vector<std::string>& tok, int L, const std::string& pre, const std::string& post) {
	std::vector<Item> items;
	int extra = 0; for (char c : pre) extra += c == '(';
	std::function<void(std::string, int, int, int)> gen = [&](std::string s, int left, int open, int groups) {
		if (!open && groups && grp::parse(s)) for (int g = 1; g <= groups; ++g) items.push_back({pre + s + post, g + extra});
		if (!left) return;
		for (auto& t : tok) {
			if (t == "(") { if (left >= open + 2) gen(s + t, left - 1, open + 1, groups + 1); }
			else if (t == ")") { if (open) gen(s + t, left - 1, open - 1, groups); }
			else if (left > open) gen(s + t, left - 1, open, groups);
		}
	};
	gen("", L, 0, 0);
	return items;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	int less = getenv("P17_SMALL") ? 2 : 0;
	auto run = [&](const char* name, const std::vector<Item>& items, int len) {
		mc::phase(name, items.size(), [&](uint64_t i) { return show(items[i]); }, [&](uint64_t i) { explore(items[i].p, items[i].group, len); });
	};
	std::vector<std::string> tok = {"a", "b", ".", "*", "?", "|", "(", ")"};
	run("patterns", family(tok, (th ? 8 : 7) - less, "", ""), 5);
	run("anchored patterns", family(tok, (th ? 8 : 7) - less, "^(", ")"), 5);
	run("repetitions", family({"a", "b", "*", "(", ")"}, (th ? 10 : 9) - less, "", ""), 4);
	run("greedy and non-greedy", family({"a", "*", "?", "(", ")"}, (th ? 10 : 9) - less, "", "b"), 4);
	run("up to the end", family({"a", ".", "*", "?", "(", ")", "$", "|"}, (th ? 7 : 6) - less, "", "$"), 5);
	{
		std::vector<std::string> before = {"", "a", ".*", ".*?", "^", "^a*", "[ab]{2}", "b+?", "(a|bc)?", "(ab)*?", ".{1,2}c", "^.{0,2}"},
			in = {"a", "[ab]+", "b{2,3}", "(a|b)c", "a|bc", "ab|a", "(ab|c)+?", "[abc]{2}", "b*a", "a.*b", "a.*?b", ".{2}", "a??b?"}, behind = {"", "c", "$", "c$", "(b|ca)", "[ac]{2}", ".*c", ".*?c", "(c|$)", "b?c", "b*"};
		std::vector<std::string> whole = {"%", "(%)+", "%|bb", "(c%){2}", "b|%", "%a|%c", "(%)?b", "(%|a)+?c"};
		size_t nb = before.size(), ni = in.size(), nn = behind.size(), nw = whole.size();
		auto get = [&](uint64_t i, int& group) {
			std::string x = before[i % nb], y = in[i / nb % ni], z = behind[i / nb / ni % nn], w = whole[i / nb / ni / nn], s;
			for (char c : w) if (c == '%') s += x + "(" + y + ")" + z; else s += c;
			if (s[0] == '^') s = "^(" + s.substr(1) + ")";      // an alternative would not be anchored otherwise
			group = s[0] == '^' ? 2 : 1;
			for (char c : w.substr(0, w.find('%'))) if (c == '(') ++group;
			for (char c : x) if (c == '(') ++group;
			return s;
		};
		mc::phase("larger patterns", nb * ni * nn * nw, [&](uint64_t i) { int g; std::string s = get(i, g); return "/" + s + "/ group " + std::to_string(g); }, [&](uint64_t i) {
			int g; std::string s = get(i, g);
			if (s.find('^', 1) != std::string::npos) return;
			explore(s, g, (th ? 7 : 6) - less, i & 1);
		});
	}
	return mc::finish();
}
