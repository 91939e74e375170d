// P26: an automaton edited by hand is the labelled graph it was edited into.
//
// All histories of low-level edits up to a length, from several starting automata, in lock step with a plain
// labelled graph.  After every edit all queries and the dump are compared with the graph; the scanner compiled from
// the automaton, and from combinations of it, is explored in product with the graph's language.
#include "fsmexpr.h"
#include <sstream>
using Pire::Fsm; using ref::L;

namespace {

const int E_ = Pire::Epsilon;

struct Graph {
	int n = 1, init = 0;
	std::set<std::array<int, 3>> edges;              // from, letter, to
	std::set<int> fin{0};
	std::map<int, unsigned long> tags;
	std::map<std::pair<int, int>, unsigned long> outs;
	bool connected(int s, int t) const { for (auto& e : edges) if (e[0] == s && e[2] == t) return true; return false; }
	bool operator<(const Graph& o) const { return std::tie(n, init, edges, fin) < std::tie(o.n, o.init, o.edges, o.fin); }
};

ref::Lang* G_;
std::map<Graph, L> memo;

L language(const Graph& g) {
	auto it = memo.find(g);
	if (it != memo.end()) return it->second;
	ref::Nfa m(G_->al.k);
	for (int s = 0; s < g.n; ++s) m.add(g.fin.count(s));
	std::set<std::array<int, 3>> done;
	for (auto& e : g.edges) {
		if (e[1] == E_) { m.eps[e[0]].push_back(e[2]); continue; }
		int c = G_->al.cls[e[1]];
		if (c >= 0 && done.insert({e[0], c, e[2]}).second) m.tr[e[0]][c].push_back(e[2]);
	}
	m.starts = {g.init};
	L l = G_->intern(m.determinize());
	if (memo.size() > 200000) memo.clear();
	memo[g] = l;
	return l;
}

// ---- the dump, read back ---------------------------------------------------------------------------------------
struct Dumped {
	std::map<int, std::pair<bool, unsigned long>> states;   // final, tag
	std::set<int> init;
	std::set<std::array<int, 3>> edges;
	std::map<std::pair<int, int>, unsigned long> outs;
	std::string err;
};

bool eat(const std::string& s, size_t& p, const std::string& w) { if (s.compare(p, w.size(), w)) return false; p += w.size(); return true; }
bool num(const std::string& s, size_t& p, unsigned long& v) {
	size_t q = p; v = 0;
	while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0');
	return p > q;
}
bool letter(const std::string& s, size_t& p, int& c) {
	if (p + 2 < s.size() && s[p] == '\\' && s[p + 1] == '\\') {
		char d = s[p + 2];
		if (d == 'n' || d == 't' || d == 'r') { c = d == 'n' ? 10 : d == 't' ? 9 : 13; p += 3; return true; }
		if (d >= '0' && d <= '7') { c = (d - '0') * 64 + (s[p + 3] - '0') * 8 + (s[p + 4] - '0'); p += 5; return c < 256; }
		if (strchr("[]-^", d)) { c = d; p += 3; return true; }
	}
	if (p + 1 < s.size() && s[p] == '\\' && s[p + 1] == '"') { c = '"'; p += 2; return true; }
	if (p >= s.size() || s[p] == '"') return false;
	c = (unsigned char)s[p++];
	return true;
}
Dumped undump(const std::string& text, const std::string& name) {
	Dumped d;
	std::istringstream in(text);
	std::string line;
	auto bad = [&](const std::string& l) { if (d.err.empty()) d.err = "the dump has an odd line: " + l; };
	bool end = false; int ln = 0;
	while (std::getline(in, line)) {
		if (++ln == 1) { if (line != "digraph {") bad(line); continue; }
		if (ln == 2) { if (line != "    \"initial\"[shape=\"plaintext\",label=\"" + name + "\"]") bad(line); continue; }
		if (line.empty()) continue;
		if (end) { bad(line); continue; }
		if (line == "}") { end = true; continue; }
		size_t p = 0; unsigned long s, t;
		if (!eat(line, p, "    ")) { bad(line); continue; }
		if (eat(line, p, "\"initial\" -> ")) { if (!num(line, p, s) || p != line.size()) bad(line); else d.init.insert(s); continue; }
		if (!num(line, p, s)) { bad(line); continue; }
		if (eat(line, p, "[shape=\"")) {
			bool f = eat(line, p, "double");
			unsigned long again, tag = 0;
			bool ok = eat(line, p, "circle\",label=\"") && num(line, p, again) && again == s;
			if (ok && eat(line, p, " (tags: ")) ok = num(line, p, tag) && eat(line, p, ")");
			if (!ok || line.substr(p) != "\"]" || !d.states.insert({(int)s, {f, tag}}).second) bad(line);
			continue;
		}
		if (!eat(line, p, " -> ") || !num(line, p, t) || !eat(line, p, "[label=\"")) { bad(line); continue; }
		auto add = [&](int c) { if (!d.edges.insert({(int)s, c, (int)t}).second) bad(line); };
		bool ok = true, first = true;
		while (ok && p < line.size()) {
			if (eat(line, p, " (outputs: ")) {
				unsigned long b, o = 0;
				do { ok = num(line, p, b); o |= 1ul << b; } while (ok && eat(line, p, ", "));
				ok = ok && eat(line, p, ")") && line.substr(p) == "\"]";
				d.outs[{(int)s, (int)t}] = o;
				break;
			}
			if (line.substr(p) == "\"]") break;
			if (!first && !eat(line, p, " ")) ok = false;
			first = false;
			if (eat(line, p, "<Epsilon>")) add(E_);
			else if (eat(line, p, "<Begin>")) add(Pire::BeginMark);
			else if (eat(line, p, "<End>")) add(Pire::EndMark);
			else if (eat(line, p, ".")) { for (int c = 0; c < 256; ++c) add(c); }
			else if (eat(line, p, "[")) {
				bool neg = eat(line, p, "^");
				std::vector<bool> in(256);
				while (ok && !eat(line, p, "]")) {
					int a, b;
					if (!letter(line, p, a)) { ok = false; break; }
					b = a;
					if (p < line.size() && line[p] == '-') { ++p; if (!letter(line, p, b)) { ok = false; break; } }
					for (int c = a; c <= b; ++c) in[c] = true;
				}
				for (int c = 0; c < 256; ++c) if (in[c] != neg) add(c);
			} else ok = false;
		}
		if (!ok) bad(line);
	}
	if (!end && d.err.empty()) d.err = "the dump has no end";
	return d;
}
std::string edge(const std::array<int, 3>& e) {
	std::string l = e[1] == E_ ? "<eps>" : e[1] == Pire::BeginMark ? "<BM>" : e[1] == Pire::EndMark ? "<EM>" : mc::show(std::string(1, (char)e[1]));
	return std::to_string(e[0]) + " " + l + " " + std::to_string(e[2]);
}
std::string checkDump(const Fsm& f, const Graph& g) {
	std::ostringstream o;
	f.DumpTo(o, "some name");
	Dumped d = undump(o.str(), "some name");
	if (!d.err.empty()) return d.err;
	std::set<int> shown;
	std::set<std::array<int, 3>> want;
	for (auto& e : g.edges) if (e[1] < 256 || e[1] == E_ || e[1] == Pire::BeginMark || e[1] == Pire::EndMark) want.insert(e);
	for (auto& e : want) if (!d.edges.count(e)) return "the dump lacks the transition " + edge(e);
	for (auto& e : d.edges) if (!want.count(e)) return "the dump has the transition " + edge(e);
	for (auto& e : want) shown.insert(e[0]);
	for (int s : g.fin) shown.insert(s);
	for (auto& t : g.tags) shown.insert(t.first);
	shown.insert(g.init);
	for (int s : shown) if (!d.states.count(s)) return "the dump does not show state " + std::to_string(s) + (g.fin.count(s) ? " (final)" : s == g.init ? " (initial)" : "");
	for (auto& s : d.states) {
		if (s.second.first != (bool)g.fin.count(s.first)) return "the dump shows state " + std::to_string(s.first) + (s.second.first ? " as final" : " as not final");
		auto t = g.tags.find(s.first);
		if (s.second.second != (t == g.tags.end() ? 0 : t->second)) return "the dump shows another tag of state " + std::to_string(s.first);
	}
	if (d.init != std::set<int>{g.init}) return "the dump shows another initial state";
	std::map<std::pair<int, int>, unsigned long> outs;
	for (auto& e : want) { auto i = g.outs.find({e[0], e[2]}); if (i != g.outs.end() && i->second) outs[{e[0], e[2]}] = i->second; }
	if (d.outs != outs) return "the dump shows other outputs";
	return "";
}

// ---- queries ---------------------------------------------------------------------------------------------------
const std::vector<int> PROBE{'a', 'b', 'c', 0, 255, E_, Pire::BeginMark, Pire::EndMark};

std::string observe(const Fsm& f, const Graph& g, bool packed, bool all) {
	++mc::ctx().st.states;
	if ((int)f.Size() != g.n) return "Size() is " + std::to_string(f.Size());
	if ((int)f.Initial() != g.init) return "Initial() is " + std::to_string(f.Initial());
	std::set<int> fin(f.Finals().begin(), f.Finals().end());
	if (fin != g.fin) return "Finals() differs";
	std::vector<int> probe = PROBE;
	if (all) { probe.clear(); for (int c = 0; c < 256; ++c) probe.push_back(c); probe.push_back(E_); probe.push_back(Pire::BeginMark); probe.push_back(Pire::EndMark); }
	for (int s = 0; s < g.n; ++s) {
		std::string st = std::to_string(s);
		if (f.IsFinal(s) != (bool)g.fin.count(s)) return "IsFinal(" + st + ") is wrong";
		auto t = g.tags.find(s);
		if (f.Tag(s) != (t == g.tags.end() ? 0 : t->second)) return "Tag(" + st + ") is " + std::to_string(f.Tag(s));
		std::set<int> to, letters;
		for (int u = 0; u < g.n; ++u) {
			auto o = g.outs.find({s, u});
			if (f.Output(s, u) != (o == g.outs.end() ? 0 : o->second)) return "Output(" + st + ", " + std::to_string(u) + ") is " + std::to_string(f.Output(s, u));
		}
		std::map<int, std::set<int>> dest;
		for (auto i = g.edges.lower_bound({s, -1, -1}); i != g.edges.end() && (*i)[0] == s; ++i) { to.insert((*i)[2]); letters.insert((*i)[1]); dest[(*i)[1]].insert((*i)[2]); }
		for (int u = 0; u < g.n; ++u) if (f.Connected(s, u) != (bool)to.count(u)) return "Connected(" + st + ", " + std::to_string(u) + ") is wrong";
		for (int c : probe) {
			const auto& d = f.Destinations(s, c);
			if (std::set<int>(d.begin(), d.end()) != dest[c]) return "Destinations(" + st + ", " + std::to_string(c) + ") differs";
			for (int u = 0; u < g.n; ++u) if (f.Connected(s, u, c) != (bool)dest[c].count(u)) return "Connected(" + st + ", " + std::to_string(u) + ", " + std::to_string(c) + ") is wrong";
		}
		if (!packed) {
			auto l = f.OutgoingLetters(s);
			if (std::set<int>(l.begin(), l.end()) != letters) return "OutgoingLetters(" + st + ") differs";
		}
	}
	return checkDump(f, g);
}

std::string compiles(const Fsm& f, const L& l, bool slow, const char* what) {
	std::string e = slow ? mc::compare(Fsm(f).Compile<Pire::SlowScanner>(), *l, G_->al) : mc::compare(Fsm(f).Compile<Pire::Scanner>(), *l, G_->al);
	++mc::ctx().st.transitions;
	return e.empty() ? e : std::string(what) + (slow ? " (slow scanner): " : " (scanner): ") + e;
}
std::string languages(const Fsm& f, const Graph& g, bool combos) {
	L l = language(g);
	std::string e;
	if (!(e = compiles(f, l, false, "compiled")).empty()) return e;
	// tags are bits with a meaning of their own for each kind; the slow scanner takes any of them for final
	if (g.tags.empty() && !(e = compiles(f, l, true, "compiled")).empty()) return e;
	if (!combos) return "";
	static Fsm c = [] { Fsm c; c.Append('c'); return c; }();
	static L lc = G_->str("c");
	if (!(e = compiles(f | c, G_->alt(l, lc), false, "f | c")).empty()) return e;
	if (!(e = compiles(c | f, G_->alt(l, lc), false, "c | f")).empty()) return e;
	static Fsm ab = [] { Fsm a, b; a.Append('a'); b.Append('b'); return a | b; }();
	static L lab = G_->alt(G_->str("a"), G_->str("b"));
	if (!(e = compiles(ab | f, G_->alt(l, lab), false, "(a | b) | f")).empty()) return e;
	if (!(e = compiles(f | ab, G_->alt(l, lab), false, "f | (a | b)")).empty()) return e;
	if (!(e = compiles(f + c, G_->cat(l, lc), false, "f + c")).empty()) return e;
	if (!(e = compiles(c + f, G_->cat(lc, l), false, "c + f")).empty()) return e;
	if (!(e = compiles(*f, G_->star(l), false, "*f")).empty()) return e;
	if (!(e = compiles(~f, G_->inv(l), false, "~f")).empty()) return e;
	return "";
}

// ---- edits -----------------------------------------------------------------------------------------------------
enum Kind { GROW, SHRINK, CONNECT, DISC, DISCALL, FINAL, CLEARFINAL, INITIAL, TAG, OUT, CLEAROUT, CONFINAL, DIVERT, IMPORT, PACK, UNPACK, COPY, SWAP };
struct Op { Kind k; int a = 0, b = 0, c = 0; };

std::string name(const Op& o) {
	auto S = [](int x) { return std::to_string(x); };
	auto C = [](int c) { return c == E_ ? std::string("eps") : c == Pire::BeginMark ? std::string("BM") : std::string(1, (char)c); };
	switch (o.k) {
		case GROW: return "Resize(+1)";
		case SHRINK: return "Resize(-1)";
		case CONNECT: return "Connect(" + S(o.a) + "," + S(o.b) + "," + C(o.c) + ")";
		case DISC: return "Disconnect(" + S(o.a) + "," + S(o.b) + "," + C(o.c) + ")";
		case DISCALL: return "Disconnect(" + S(o.a) + "," + S(o.b) + ")";
		case FINAL: return "SetFinal(" + S(o.a) + "," + S(o.b) + ")";
		case CLEARFINAL: return "ClearFinal()";
		case INITIAL: return "SetInitial(" + S(o.a) + ")";
		case TAG: return "SetTag(" + S(o.a) + "," + S(o.b) + ")";
		case OUT: return "SetOutput(" + S(o.a) + "," + S(o.b) + "," + S(o.c) + ")";
		case CLEAROUT: return "ClearOutputs()";
		case CONFINAL: return "ConnectFinal(" + S(o.a) + "," + C(o.c) + ")";
		case DIVERT: return "Divert(" + S(o.a) + "," + S(o.b) + "," + S(o.c) + ")";
		case IMPORT: return "Import(automaton " + S(o.a) + ")";
		case PACK: return "Sparse()";
		case UNPACK: return "Unsparse()";
		case COPY: return "copy";
		case SWAP: return "swap";
	}
	return "?";
}

struct Sys { Fsm f; Graph g; bool packed = false; };
std::vector<std::pair<std::string, Sys>> bases;
std::vector<Sys> imports;

bool allowed(const Op& o, const Sys& s) {
	const Graph& g = s.g;
	auto in = [&](int x) { return x < g.n; };
	switch (o.k) {
		case GROW: return g.n < 5;
		case SHRINK: {
			int x = g.n - 1;
			if (g.n < 2 || g.init == x || g.fin.count(x) || g.tags.count(x)) return false;
			for (auto& e : g.edges) if (e[0] == x || e[2] == x) return false;
			for (auto& e : g.outs) if (e.first.first == x || e.first.second == x) return false;
			return true;
		}
		case CONNECT: case DISC: return in(o.a) && in(o.b) && (!s.packed || o.c == E_);
		case CONFINAL: return in(o.a) && (!s.packed || o.c == E_);
		case DISCALL: case OUT: return in(o.a) && in(o.b);
		case FINAL: case INITIAL: case TAG: return in(o.a);
		case DIVERT: return in(o.a) && in(o.b) && in(o.c) && o.b != o.c && !(g.outs.count({o.a, o.b}) && g.outs.count({o.a, o.c}));
		case IMPORT: return g.n < 4;
		default: return true;
	}
}
void apply(const Op& o, Sys& s) {
	Fsm& f = s.f; Graph& g = s.g;
	switch (o.k) {
		case GROW: f.Resize(g.n + 1); ++g.n; break;
		case SHRINK: f.Resize(g.n - 1); --g.n; break;
		case CONNECT: if (o.c == E_ && o.a != o.b) f.Connect(o.a, o.b); else f.Connect(o.a, o.b, o.c); g.edges.insert({o.a, o.c, o.b}); break;
		case DISC: f.Disconnect(o.a, o.b, o.c); g.edges.erase({o.a, o.c, o.b}); break;
		case DISCALL: f.Disconnect(o.a, o.b);
			for (auto i = g.edges.begin(); i != g.edges.end();) if ((*i)[0] == o.a && (*i)[2] == o.b) i = g.edges.erase(i); else ++i;
			break;
		case FINAL: f.SetFinal(o.a, o.b); if (o.b) g.fin.insert(o.a); else g.fin.erase(o.a); break;
		case CLEARFINAL: f.ClearFinal(); g.fin.clear(); break;
		case INITIAL: f.SetInitial(o.a); g.init = o.a; break;
		case TAG: f.SetTag(o.a, o.b); g.tags[o.a] = o.b; break;
		case OUT: f.SetOutput(o.a, o.b, o.c); g.outs[{o.a, o.b}] = o.c; break;
		case CLEAROUT: f.ClearOutputs(); g.outs.clear(); break;
		case CONFINAL: f.ConnectFinal(o.a, o.c); for (int x : g.fin) g.edges.insert({x, o.c, o.a}); break;
		case DIVERT: {
			f.Divert(o.a, o.b, o.c);
			auto i = g.outs.find({o.a, o.b});
			if (i != g.outs.end()) { g.outs[{o.a, o.c}] = i->second; g.outs.erase({o.a, o.b}); }
			std::vector<std::array<int, 3>> add;
			for (auto e = g.edges.begin(); e != g.edges.end();) if ((*e)[0] == o.a && (*e)[2] == o.b) { add.push_back({o.a, (*e)[1], o.c}); e = g.edges.erase(e); } else ++e;
			g.edges.insert(add.begin(), add.end());
			break;
		}
		case IMPORT: {
			const Sys& r = imports[o.a];
			f.Import(r.f);
			int k = g.n; g.n += r.g.n;
			for (auto& e : r.g.edges) g.edges.insert({e[0] + k, e[1], e[2] + k});
			for (auto& t : r.g.tags) g.tags[t.first + k] = t.second;
			for (auto& t : r.g.outs) g.outs[{t.first.first + k, t.first.second + k}] = t.second;
			s.packed = false;
			break;
		}
		case PACK: f.Sparse(); s.packed = true; break;
		case UNPACK: f.Unsparse(); s.packed = false; break;
		case COPY: { Fsm x(f); Fsm y; y = x; x = Fsm(); f = y; break; }
		case SWAP: { Fsm x = bases[1].second.f, y = bases[3].second.f; x.Swap(f); y.Swap(x); f = y; break; }
	}
	f.SetIsDetermined(false);
}

struct Plan { std::vector<Op> ops; int depth; bool lang, combos; };

void explore(Sys& s, const Plan& p, int depth, const std::string& path) {
	for (auto& o : p.ops) {
		if (!allowed(o, s)) continue;
		Sys t = s;
		apply(o, t);
		std::string here = path + ", " + name(o), e;
		if (!(e = observe(t.f, t.g, t.packed, o.k == IMPORT || o.k == UNPACK || o.k == PACK)).empty()) { mc::violation(here + ": " + e); continue; }
		if (p.lang && !(e = languages(t.f, t.g, p.combos)).empty()) { mc::violation(here + ": " + e); continue; }
		if (depth > 1) explore(t, p, depth - 1, here);
	}
	std::string e = observe(s.f, s.g, s.packed, false);
	if (!e.empty()) mc::violation(path + ", after editing copies: " + e);
}

Graph readGraph(const Fsm& f) {
	Graph g;
	g.n = f.Size(); g.init = f.Initial(); g.fin.clear();
	for (auto s : f.Finals()) g.fin.insert(s);
	for (int s = 0; s < g.n; ++s) {
		for (int c = 0; c < Pire::MaxChar; ++c) for (auto t : f.Destinations(s, c)) g.edges.insert({s, c, (int)t});
		if (f.Tag(s)) g.tags[s] = f.Tag(s);
		for (int t = 0; t < g.n; ++t) if (f.Output(s, t)) g.outs[{s, t}] = f.Output(s, t);
	}
	return g;
}

std::vector<Op> family(int n, const std::vector<int>& letters, bool wide) {
	std::vector<Op> r;
	for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c : letters) { r.push_back({CONNECT, a, b, c}); r.push_back({DISC, a, b, c}); }
	for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) r.push_back({DISCALL, a, b});
	for (int a = 0; a < n; ++a) { r.push_back({FINAL, a, 0}); r.push_back({FINAL, a, 1}); r.push_back({INITIAL, a}); }
	for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) if (b != c) r.push_back({DIVERT, a, b, c});
	for (Kind k : {CLEARFINAL, PACK, UNPACK}) r.push_back({k});
	for (int a = 0; a < n; ++a) for (int c : letters) r.push_back({CONFINAL, a, 0, c});
	if (wide) {
		for (int a = 0; a < n; ++a) { r.push_back({TAG, a, 20}); for (int b = 0; b < n; ++b) r.push_back({OUT, a, b, 9}); }
		for (size_t i = 0; i < imports.size(); ++i) r.push_back({IMPORT, (int)i});
		for (Kind k : {GROW, SHRINK, CLEAROUT, COPY, SWAP}) r.push_back({k});
	}
	return r;
}

} // namespace

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	ref::Lang g(ref::Alpha::letters("abc"));
	G_ = &g;
	auto byOps = [](const std::vector<Op>& ops, int n = 0) {
		Sys s;
		for (int i = 0; i < n; ++i) apply({GROW}, s);
		for (auto& o : ops) apply(o, s);
		return s;
	};
	auto prog = [](const Fsm& f) { Sys s; s.f = f; s.f.SetIsDetermined(false); s.g = readGraph(f); s.packed = f.Letters().Size() != 0; return s; };
	auto str = [](const char* t) { Fsm f; f.Append(Pire::ystring(t)); return f; };
	Sys two = byOps({{CONNECT, 0, 1, 'a'}, {CONNECT, 1, 1, 'b'}, {FINAL, 0, 0}, {FINAL, 1, 1}, {TAG, 1, 8}, {OUT, 0, 1, 1}}, 1);
	Sys three = byOps({{CONNECT, 0, 1, 'a'}, {CONNECT, 0, 2, 'a'}, {CONNECT, 1, 2, 'b'}, {CONNECT, 2, 0, E_}, {OUT, 0, 1, 1}, {OUT, 2, 0, 6}, {TAG, 2, 48}, {FINAL, 2, 1}, {FINAL, 0, 0}}, 2);
	Sys alt = prog(*str("a") | str("b"));
	Sys canon = prog([&] { Fsm f = *str("a") + str("b"); f.Canonize(); return f; }());
	Sys unpacked = canon; apply({UNPACK}, unpacked);
	Sys packed3 = three; apply({PACK}, packed3);
	Sys dot = prog([&] { Fsm f; f.AppendDot(); f.AppendSpecial(Pire::EndMark); return f; }());
	imports = {two, packed3, canon, unpacked};
	bases = {{"new automaton", Sys()}, {"two states", two}, {"three states", three}, {"a*|b", alt}, {"canonical a*b", canon}, {"canonical a*b, unpacked", unpacked}, {"packed three states", packed3}, {". and end mark", dot}};
	for (auto& b : bases) {
		std::string e = observe(b.second.f, b.second.g, b.second.packed, true);
		if (!e.empty()) { mc::phase("start", 1, [](uint64_t) { return "start"; }, [&](uint64_t) { mc::violation(b.first + ": " + e); }); }
	}
	auto run = [&](const std::string& nm, std::vector<Op> ops, int depth, std::vector<int> which, bool lang, bool combos) {
		Plan p{ops, depth, lang, combos};
		size_t n = ops.size();
		mc::phase(nm, n * which.size(), [=](uint64_t i) { return bases[which[i / n]].first + ", " + name(ops[i % n]); }, [=](uint64_t i) {
			auto& b = bases[which[i / n]];
			if (!allowed(ops[i % n], b.second)) return;
			Sys t = b.second;
			apply(ops[i % n], t);
			std::string here = b.first + ", " + name(ops[i % n]), e;
			if (!(e = observe(t.f, t.g, t.packed, true)).empty()) { mc::violation(here + ": " + e); return; }
			if (!(e = languages(t.f, t.g, true)).empty()) { mc::violation(here + ": " + e); return; }
			++mc::ctx().st.nontrivial;
			if (depth > 1) explore(t, p, depth - 1, here);
			if (i % 97 == 5) mc::sample(here);
		});
	};
	std::vector<int> all{0, 1, 2, 3, 4, 5, 6, 7};
	run("edits", family(3, {'a', 'b', E_, Pire::BeginMark}, true), 2, all, true, true);
	run("long edits", family(2, {'a', E_}, false), th ? 4 : 3, {1, 3, 5}, true, false);
	run("queries", family(3, {'a'}, true), 3, th ? std::vector<int>{0, 2, 4} : std::vector<int>{0, 2}, false, false);
	fx::Pool full;
	full.nul = {fx::EPS, fx::FALSE_, fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	full.un = {fx::STAR, fx::NOT, fx::POW0, fx::POW2, fx::SURR, fx::PREP, fx::APP, fx::ADD_A, fx::ADD_STR, fx::ADD_ALTS, fx::ADD_DOT, fx::ADD_EM};
	full.bin = {fx::CAT, fx::OR, fx::AND};
	full.build(th ? 3 : 2);
	mc::phase("programs", full.nodes.size() * fx::REPRS, [&](uint64_t i) { return full.text(i / fx::REPRS) + ", " + fx::reprname(i % fx::REPRS); }, [&](uint64_t i) {
		Fsm f = fx::operand(full, i / fx::REPRS, i % fx::REPRS);
		std::string e = checkDump(f, readGraph(f));
		if (!e.empty()) mc::violation(e);
		f.Unsparse();
		if (!(e = checkDump(f, readGraph(f))).empty()) mc::violation("unpacked: " + e);
		f.SetTag(0, 4); f.SetOutput(f.Initial(), f.Size() - 1, 12);
		if (!(e = observe(f, readGraph(f), false, true)).empty()) mc::violation("unpacked, with tag: " + e);
	});
	mc::phase("letters", 256 * 4, [](uint64_t i) { return "letter " + std::to_string(i / 4) + (i % 4 & 1 ? " and the next but one" : "") + (i % 4 & 2 ? ", complement" : ""); }, [](uint64_t i) {
		Sys s = Sys(); apply({GROW}, s);
		for (int c = 0; c < 256; ++c) {
			bool in = c == (int)(i / 4) || ((i & 1) && c == (int)(i / 4) + 2);
			if (in != (bool)(i & 2)) apply({CONNECT, 0, 1, c}, s);
		}
		std::string e = observe(s.f, s.g, false, true);
		if (!e.empty()) mc::violation(e);
		apply({PACK}, s);
		if (!(e = observe(s.f, s.g, true, true)).empty()) mc::violation("packed: " + e);
	});
	return mc::finish();
}
