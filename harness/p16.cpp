// P16: the capturing scanner returns the span of the requested group.
//
// All patterns with groups up to a length over a token alphabet, all texts up to a length.  The reference follows
// every thread of the pattern's automaton over the text and collects, for every boundary, the group begins and
// the group ends whose thread goes on behind it.  Where the first end has one possible begin, and the group is
// not begun again in between, the scanner must report exactly that span; where no thread ends the group it must
// report none; the verdict must be that of the pattern on every text.
#include "grp.h"
#include <pire/pire.h>
#include <pire/extra.h>

using Pire::CapturingScanner;
typedef std::vector<int> Text;      // letters: 0, 1, 2 = a, b, c

struct Cfg { int s, b; bool passed; bool operator<(const Cfg& o) const { return std::tie(s, b, passed) < std::tie(o.s, o.b, o.passed); } };
typedef std::set<Cfg> Cfgs;

/// What the threads do at one boundary, given the letter behind it
struct Events { bool begin = false, end = false, without = false; std::set<int> begins; };      // begins: of the groups that end here; without: a match that does not go through the group

static Cfgs step(const grp::Nfa& n, const Cfgs& c, int letter, int pos, Events& ev) {
	struct Item { int s, b; bool passed, B; int e; bool operator<(const Item& o) const { return std::tie(s, b, passed, B, e) < std::tie(o.s, o.b, o.passed, o.B, o.e); } };
	std::set<Item> seen; std::vector<Item> q;
	auto push = [&](const Item& x) { if (seen.insert(x).second) q.push_back(x); };
	for (auto& x : c) push({x.s, x.b, x.passed, false, -2});
	Cfgs r;
	while (!q.empty()) {
		Item x = q.back(); q.pop_back();
		if (x.s == n.end && !x.passed) ev.without = true;
		for (auto& e : n.eps[x.s]) {
			Item y = x; y.s = e.to;
			if (e.mark == 'B') { y.B = true; y.b = pos; }
			if (e.mark == 'E') { y.e = x.b; y.passed = true; }
			push(y);
		}
		for (auto& e : n.edge[x.s]) if (e.mask >> letter & 1) {
			r.insert({e.to, x.b, x.passed});
			if (x.B) ev.begin = true;
			if (x.e != -2) { ev.end = true; ev.begins.insert(x.e); }
		}
	}
	return r;
}
static bool accepts(const grp::Nfa& n, const Cfgs& c) {
	std::set<int> seen; std::vector<int> q;
	for (auto& x : c) if (seen.insert(x.s).second) q.push_back(x.s);
	while (!q.empty()) { int s = q.back(); q.pop_back(); for (auto& e : n.eps[s]) if (seen.insert(e.to).second) q.push_back(e.to); }
	return seen.count(n.end);
}

/// What is known of a text's prefix
struct Known { bool ended = false, clear = false; int b = -1, e = -1; int lastBegin = -1; bool without = false; };

static int wrongs;
static void check(const grp::Nfa& n, const CapturingScanner& sc, const CapturingScanner::State& st, const Cfgs& c, const Known& k, const std::string& text) {
	++mc::ctx().st.states;
	bool fin = accepts(n, c);
	auto bad = [&](const std::string& m) { if (!wrongs++) mc::violation("text '" + text + "': " + m); };
	if (sc.Final(st) != fin) bad(fin ? "not reported as matching" : "reported as matching");
	std::string got = st.Captured() ? "span " + std::to_string(st.Begin()) + ".." + std::to_string(st.End()) : "nothing captured";
	if (!k.ended) { if (st.Captured() && (!k.without || k.lastBegin < 0)) bad("the group is not there, but " + got); }
	else if (k.clear) {
		if (!st.Captured() || (int)st.Begin() != k.b || (int)st.End() != k.e) bad("expected span " + std::to_string(k.b) + ".." + std::to_string(k.e) + ", " + got);
		++mc::ctx().st.nontrivial;
	} else mc::count("texts with several possible spans");
}
static void walk(const grp::Nfa& n, const CapturingScanner& sc, const CapturingScanner::State& st, const Cfgs& c, const Known& k, const std::string& text, int pos, int depth) {
	static const int code[] = {'a', 'b', 'c', Pire::BeginMark, Pire::EndMark};
	auto feed = [&](int letter, CapturingScanner::State& s2, Cfgs& c2, Known& k2) {
		Pire::Step(sc, s2, (Pire::Char)code[letter]);
		Events ev;
		c2 = step(n, c, letter, pos, ev);
		++mc::ctx().st.transitions;
		if (!k2.ended) {
			if (ev.begin) k2.lastBegin = pos;
			if (ev.without) k2.without = true;
			if (ev.end) {
				k2.ended = true; k2.e = pos; k2.b = *ev.begins.begin();
				k2.clear = ev.begins.size() == 1 && k2.b < pos && k2.lastBegin == k2.b && !k2.without;
			}
		}
	};
	check(n, sc, st, c, k, text);
	{
		auto s2 = st; Cfgs c2; Known k2 = k;
		feed(4, s2, c2, k2);
		check(n, sc, s2, c2, k2, text + "<end>");
	}
	if (!depth && !wrongs) {
		CapturingScanner::State r; sc.Initialize(r);
		Pire::Step(sc, r, Pire::BeginMark);
		Pire::Run(sc, r, text.data(), text.data() + text.size());
		if (r.Captured() != st.Captured() || (r.Captured() && (r.Begin() != st.Begin() || r.End() != st.End())) || sc.StateIndex(r) != sc.StateIndex(st)) mc::violation("text '" + text + "': a run differs from single steps"), ++wrongs;
	}
	if (!depth || wrongs) return;
	for (int l = 0; l < 3; ++l) {
		auto s2 = st; Cfgs c2; Known k2 = k;
		feed(l, s2, c2, k2);
		walk(n, sc, s2, c2, k2, text + (char)('a' + l), pos + 1, depth - 1);
	}
}

static void explore(const std::string& p, int group, int len) {
	grp::P tree = grp::parse(p);
	wrongs = 0;
	Pire::Fsm fsm;
	try {
		Pire::Lexer lx(p.data(), p.data() + p.size());
		lx.AddFeature(Pire::Features::Capture(group));
		fsm = lx.Parse();
	} catch (const Pire::Error& e) { mc::violation(std::string("rejected: ") + e.what()); return; }
	fsm.Surround();
	fsm.Determine();
	auto sc = fsm.Compile<CapturingScanner>();
	grp::Nfa n; n.surrounded(tree, group);
	// mark first
	CapturingScanner::State st; sc.Initialize(st);
	Cfgs c; c.insert({n.start, -1, false});
	Known k;
	check(n, sc, st, c, k, "<nothing>");
	Pire::Step(sc, st, Pire::BeginMark);
	Events ev; Cfgs c2 = step(n, c, 3, 0, ev);
	if (ev.begin) k.lastBegin = 0;
	if (ev.without) k.without = true;
	if (ev.end) { k.ended = true; k.e = 0; k.clear = false; }
	walk(n, sc, st, c2, k, "", 1, len);
}

struct Item { std::string p; int group; };
static std::string show(const Item& x) { return "/" + x.p + "/ group " + std::to_string(x.group); }

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	{
		// larger patterns: what stands before, in and behind the group
		std::vector<std::string> before = {"", "a", "^", "^a*", "[ab]{2}", "b.", "(a|bc)", "(ab)*", ".{1,2}c"}, in = {"a", "[ab]+", "b{2,3}", "(a|b)c", "a|bc", "(ab|c)*", "[abc]{2}", "b*a", "a.b"}, behind = {"", "c", "$", "c$", "(b|ca)", "[ac]{2}", ".*c", "(c|$)", "b?c"};
		std::vector<std::string> whole = {"%", "(%)*", "%|bb", "(c%){2}", "%a|%c", "(%)?b"};
		size_t nb = before.size(), ni = in.size(), nn = behind.size(), nw = whole.size();
		auto get = [&](uint64_t i, int& group) {
			std::string x = before[i % nb], y = in[i / nb % ni], z = behind[i / nb / ni % nn], w = whole[i / nb / ni / nn], s;
			for (char c : w) if (c == '%') s += x + "(" + y + ")" + z; else s += c;
			group = 1;
			for (char c : w.substr(0, w.find('%'))) if (c == '(') ++group;
			for (char c : x) if (c == '(') ++group;
			return s;
		};
		mc::phase("larger patterns", nb * ni * nn * nw, [&](uint64_t i) { int g; std::string s = get(i, g); return "/" + s + "/ group " + std::to_string(g); }, [&](uint64_t i) {
			int g; std::string s = get(i, g);
			explore(s, g, th ? 7 : 6);
		});
	}
	std::vector<std::string> tok = {"a", "b", ".", "*", "?", "|", "(", ")"};
	std::vector<Item> items;
	int L = getenv("P16_LEN") ? atoi(getenv("P16_LEN")) : th ? 8 : 7;
	std::function<void(std::string, int, int, int)> gen = [&](std::string s, int left, int open, int groups) {
		if (!open && groups) {
			if (auto t = grp::parse(s)) for (int g = 1; g <= groups; ++g) items.push_back({s, g});
		}
		if (!left) return;
		for (auto& t : tok) {
			if (t == "(") { if (left >= open + 2) gen(s + t, left - 1, open + 1, groups + 1); }
			else if (t == ")") { if (open) gen(s + t, left - 1, open - 1, groups); }
			else if (left > open) gen(s + t, left - 1, open, groups);
		}
	};
	gen("", L, 0, 0);
	fprintf(stderr, "%zu patterns\n", items.size());
	mc::phase("patterns", items.size(), [&](uint64_t i) { return show(items[i]); }, [&](uint64_t i) {
		explore(items[i].p, items[i].group, getenv("P16_T") ? atoi(getenv("P16_T")) : 5);
	});
	return mc::finish();
}
