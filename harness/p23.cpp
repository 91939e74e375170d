// P23: the convenience matcher agrees with the search language of its pattern.
//
// Every token sequence of a length under every option combination, every way to construct, copy and ask, all texts
// up to a length over the letter classes of the pattern; patterns too complex to determine on all texts over two
// letters around the length that matters.
#include "repat.h"
#include <pire/easy.h>

using Pire::Regexp; using refre::Opts; using refre::U32;

struct OptSet { const char* name; Opts o; std::function<std::unique_ptr<Regexp>(const std::string&)> make; };
static std::vector<OptSet> sets() {
	using namespace Pire;
	std::vector<OptSet> v;
	auto add = [&](const char* n, bool u, bool i, bool a, std::function<std::unique_ptr<Regexp>(const std::string&)> f) {
		OptSet s; s.name = n; s.o.utf8 = u; s.o.icase = i; s.o.andnot = a; s.make = f; v.push_back(s);
	};
#define SET(U, IC, AN, ...) add(#__VA_ARGS__, U, IC, AN, [](const std::string& p) { return std::unique_ptr<Regexp>(new Regexp(p, __VA_ARGS__)); });
#define SETC(U, IC, AN, ...) add(#__VA_ARGS__ " ", U, IC, AN, [](const std::string& p) { return std::unique_ptr<Regexp>(new Regexp(p.c_str(), __VA_ARGS__)); });
	add("", false, false, false, [](const std::string& p) { return std::unique_ptr<Regexp>(new Regexp(p)); });
	SET(true, true, true, UTF8 | I | ANDNOT)
	SETC(true, false, false, UTF8)
	SET(false, true, false, I)
	SETC(false, false, true, ANDNOT)
	SET(false, true, true, I | ANDNOT)
	SETC(true, true, false, UTF8 | I)
	SET(true, false, true, ANDNOT | UTF8)
	SET(false, true, true, ANDNOT | I | LATIN1)
	SETC(true, true, true, I | ANDNOT | UTF8)
	SETC(true, true, false, I | UTF8)
	SET(false, false, false, LATIN1)
	SET(false, false, false, UTF8 | LATIN1)
	SET(true, false, false, LATIN1 | UTF8)
	SET(true, true, true, UTF8 | ANDNOT | I)
	SETC(false, true, false, I | I)
	SET(true, true, true, Options() | I | UTF8 | ANDNOT | I)
	add("options in a variable", true, true, true, [](const std::string& p) { Options o = UTF8 | I; Options q(o | ANDNOT); return std::unique_ptr<Regexp>(new Regexp(p, q)); });
	add("options assigned", true, false, true, [](const std::string& p) { Options o = I | ANDNOT, q = UTF8 | ANDNOT; o = q; return std::unique_ptr<Regexp>(new Regexp(p, o)); });
	add("options built with Add", false, true, true, [](const std::string& p) { Options o; o.Add(Features::AndNotSupport()); o.Add(Features::CaseInsensitive()); return std::unique_ptr<Regexp>(new Regexp(p.c_str(), o)); });
	return v;
}

static std::string bytes(const U32& p) { std::string s; for (auto c : p) s += refre::enc8(c); return s; }

/// One object in every form of question.
static int ask(const Regexp& r, const std::string& t) {
	bool x = r.Matches(t.data(), t.data() + t.size());
	if (r.Matches(t) != x || (t ==~ r) != x) return -1;
	if (t.find('\0') == std::string::npos && (r.Matches(t.c_str()) != x || (t.c_str() ==~ r) != x)) return -1;
	return x;
}

struct Walker {
	const ref::Dfa& d; const ref::Dfa& dom; const ref::Alpha& al; std::vector<std::pair<std::string, const Regexp*>> objs; std::vector<char> viable; long left;
	Walker(const ref::Dfa& d, const ref::Dfa& dom, const ref::Alpha& al): d(d), dom(dom), al(al), viable(dom.live()) {}
	bool bad = false;
	void text(int s, int m, const std::string& t) {
		int e = al.cls[ref::EM];
		if (!dom.fin[dom.next(m, e)] || bad) return;
		bool want = d.fin[d.next(s, e)];
		++mc::ctx().st.states;
		if (want) ++mc::ctx().st.nontrivial;
		for (auto& o : objs) {
			int got = ask(*o.second, t);
			++mc::ctx().st.transitions;
			if (got != want) {
				mc::violation("text " + mc::show(t) + ": " + o.first + (got < 0 ? " answers differently in different forms" : got ? " matches" : " does not match") + ", the pattern's language says " + (want ? "match" : "no match"));
				bad = true; return;
			}
		}
	}
	void walk(int s, int m, const std::string& t, int len) {
		text(s, m, t);
		if (!len) return;
		for (int c = 0; c < al.k; ++c) {
			if (al.rep[c] >= 256 || !viable[dom.next(m, c)]) continue;
			// the first and the last letter of a class with many
			int last = al.rep[c];
			for (int l = 255; l > last; --l) if (al.cls[l] == c) { last = l; break; }
			walk(d.next(s, c), dom.next(m, c), t + (char)(t.size() & 1 ? last : al.rep[c]), len - 1);
			if (bad) return;
		}
	}
};

static void check(const U32& p, const OptSet& os, long budget) {
	if (!os.o.utf8) for (auto c : p) if (c >= 0x80) return;      // a Latin-1 pattern is ASCII
	auto tree = refre::parse(p, os.o);
	std::string src = bytes(p);
	std::unique_ptr<Regexp> r;
	try { r = os.make(src); } catch (const Pire::Error& e) { if (tree) mc::violation(std::string("rejected: ") + e.what()); return; }
	if (!tree) return;      // what is rejected is another property's business
	refre::Denote den(os.o, {tree});
	ref::Lang& g = *den.lang;
	ref::L l = g.surround(den.eval(tree)), dom = den.texts();
	Regexp copy(*r), assigned("zzz");
	assigned = copy;
	Pire::Fsm f = refre::parsePire(p, os.o); f.Surround();
	Pire::Fsm f2(f);
	Regexp fast(f.Compile<Pire::Scanner>()), slow(f2.Compile<Pire::SlowScanner>());
	if (src.size() & 1) r.reset();
	Walker w(*l, *dom, g.al);
	if (r) w.objs.push_back({"the object", r.get()});
	w.objs.push_back({"a copy of the object", &copy});
	w.objs.push_back({"an object assigned to", &assigned});
	w.objs.push_back({"the object made of a scanner", &fast});
	w.objs.push_back({"the object made of a slow scanner", &slow});
	int bm = g.al.cls[ref::BM], len = 0;
	for (long n = 1; n * g.al.k <= budget && len < 6; n *= g.al.k) ++len;
	w.walk(l->next(l->start, bm), dom->next(dom->start, bm), "", len);
	// longer texts, with one or two other letters
	for (int n : {17, 40}) for (int c = 0; c < g.al.k; ++c) for (int x = 0; x < g.al.k; ++x) {
		if (g.al.rep[c] >= 256 || g.al.rep[x] >= 256) continue;
		for (int at : {0, 7, n - 2}) {
			std::string t(n, (char)g.al.rep[c]);
			t[at] = t[at + 1] = (char)g.al.rep[x];
			int s = l->next(l->start, bm), m = dom->next(dom->start, bm);
			for (unsigned char ch : t) { s = l->next(s, g.al.cls[ch]); m = dom->next(m, g.al.cls[ch]); }
			w.text(s, m, t);
		}
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::vector<OptSet> os = sets();
	auto phase = [&](const char* name, const std::vector<std::string>& tok, int len, size_t from, size_t to, long budget) {
		refre::Seqs seqs(tok, len);
		size_t n = to - from;
		mc::phase(name, seqs.total * n, [=, &os](uint64_t i) { return refre::show(seqs.get(i / n)) + " " + os[from + i % n].name; }, [=, &os](uint64_t i) { check(seqs.get(i / n), os[from + i % n], budget); });
	};
	phase("all options", {"a", "B", ".", "[^A]", "^", "$", "|", "&", "~", "я", "Я"}, 3, 0, os.size(), 300);
	phase("anchors", {"a", "^", "$", "|", "(", ")", "*", "."}, th ? 6 : 5, 0, 1, 800);
	phase("larger", {"a", "b", "^", "$", "|", "(", ")", "?", "[ab]", "&", "~", "я", "*"}, th ? 5 : 4, 0, 2, 400);
	// beyond what can be determined
	std::vector<std::string> big = {"a[ab]{18}b", "^[ab]*a[ab]{17}$", "(a|bb)a[ab]{17}$"};
	mc::phase("too complex to determine", big.size(), [&](uint64_t i) { return big[i]; }, [&](uint64_t i) {
		Regexp r(big[i]), c(r);
		Pire::Fsm f = Pire::Lexer(big[i]).Parse(); f.Surround();
		mc::count(f.Determine() ? "was determined after all" : "could not be determined");
		std::string t;
		for (int n = 17; n <= (th ? 21 : 20); ++n) for (unsigned m = 0; m < 1u << n; ++m) {
			t.assign(n, 'a');
			for (int k = 0; k < n; ++k) if (m >> k & 1) t[k] = 'b';
			bool want = false;
			if (i == 0) { for (int k = 0; k + 19 < n; ++k) want |= t[k] == 'a' && t[k + 19] == 'b'; }
			else if (i == 1) want = n >= 18 && t[n - 18] == 'a';
			else want = n >= 19 && t[n - 18] == 'a' && (t[n - 19] == 'a' || (n >= 20 && t[n - 19] == 'b' && t[n - 20] == 'b'));
			++mc::ctx().st.states;
			if (want) ++mc::ctx().st.nontrivial;
			bool got = m % 2 ? r.Matches(t) : c.Matches(t.c_str());
			if (got != want) { mc::violation("text " + t + (got ? ": match" : ": no match")); return; }
		}
	});
	return mc::finish();
}
