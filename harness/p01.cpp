// P01: construction operations compute the language they are named for.
//
// Every construction program up to a size is executed on real Fsm objects; the result, compiled into the
// deterministic and the nondeterministic scanner, is explored in product with the reference DFA of the same
// program over all 256 bytes and both marks, so each program is decided for texts of every length.
#include "fsmexpr.h"
using namespace fx;

static std::map<int, L> memo;

static void checkLang(const Fsm& f, const L& l, const ref::Alpha& al, const std::string& what) {
	{
		auto sc = Fsm(f).Compile<Pire::Scanner>();
		std::string e = mc::compare(sc, *l, al);
		if (!e.empty()) mc::violation(what + " (scanner): " + e);
	}
	{
		auto sc = Fsm(f).Compile<Pire::SlowScanner>();
		std::string e = mc::compare(sc, *l, al);
		if (!e.empty()) mc::violation(what + " (slow scanner): " + e);
	}
}

static void exprPhase(const char* name, Pool& pool, size_t from) {
	memo.clear();
	mc::phase(name, pool.nodes.size() - from, [&](uint64_t i) { return pool.text(from + i); }, [&](uint64_t i) {
		L l = refl(pool, from + i, memo);
		checkLang(build(pool, from + i), l, lang().al, "automaton");
		if (i % 1999 == 7) mc::sample(pool.text(from + i));
	});
}

// ---- operands that were determined, packed and so on before -------------------------------------------------
static void reprPhase(const char* name, Pool& pool, size_t from) {
	memo.clear();
	mc::phase(name, pool.nodes.size() - from, [&](uint64_t i) { return pool.text(from + i); }, [&](uint64_t i) {
		if (arity(pool.nodes[from + i].op) == 0) return;
		L l = refl(pool, from + i, memo);
		for (int r = CANONICAL; r < REPRS; ++r) checkLang(build(pool, from + i, r), l, lang().al, std::string("operands ") + reprname(r));
	});
}

// ---- operands stay what they were -------------------------------------------------------------------------
static void operandPhase() {
	Pool p;
	p.nul = {EPS, FALSE_, A, ALTS, DOT, BMARK};
	p.un = {STAR, NOT, SURR, ADD_A, POW2};
	p.build(2);
	size_t n = p.nodes.size();
	memo.clear();
	static const char* opn[] = {"x+y", "x|y", "x&y", "x+=y", "x|=y", "x&=y", "~x,*x,x*3,Surrounded", "copies"};
	mc::phase("operands", n * n, [&](uint64_t i) { return p.text(i / n) + " ; " + p.text(i % n); }, [&](uint64_t i) {
		int xi = i / n, yi = i % n;
		L lx = refl(p, xi, memo), ly = refl(p, yi, memo);
		ref::Lang& g = lang();
		for (int op = 0; op < 8; ++op) {
			if (op >= 6 && yi) continue;
			Fsm x = build(p, xi), y = build(p, yi), z;
			L lz, lx2 = lx;
			switch (op) {
				case 0: z = x + y; lz = g.cat(lx, ly); break;
				case 1: z = x | y; lz = g.alt(lx, ly); break;
				case 2: z = x & y; lz = g.conj(lx, ly); break;
				case 3: z = (x += y); lz = lx2 = g.cat(lx, ly); break;
				case 4: z = (x |= y); lz = lx2 = g.alt(lx, ly); break;
				case 5: z = (x &= y); lz = lx2 = g.conj(lx, ly); break;
				case 6: {
					Fsm a = ~x, b = *x, c = x * 3, d = x.Surrounded();
					checkLang(a, g.inv(lx), g.al, "~x");
					checkLang(b, g.star(lx), g.al, "*x");
					checkLang(c, g.pow(lx, 3), g.al, "x*3");
					checkLang(d, g.surround(lx), g.al, "x.Surrounded()");
					z = x; lz = lx;
					break;
				}
				case 7: {
					// a result used on both sides of later operations
					Fsm a = x; a |= x; a += x; z = a; z &= a;
					lz = g.cat(lx, lx);
					break;
				}
			}
			std::string w = opn[op];
			checkLang(z, lz, g.al, w + ": result");
			checkLang(x, lx2, g.al, w + ": left operand");
			checkLang(y, ly, g.al, w + ": right operand");
		}
	});
}

// ---- every byte value -------------------------------------------------------------------------------------
static void bytePhase() {
	mc::phase("bytes", 256, [](uint64_t c) { return "byte " + std::to_string(c); }, [](uint64_t c) {
		ref::Lang g(ref::Alpha::letters(std::string("\x01z\xfe") + (char)c));
		std::string s(1, (char)c), t = s + "z", u = std::string("\xfe") + s;
		L lc = g.str(s);
		Fsm f;
		f.Append((char)c);
		checkLang(f, lc, g.al, "Append");
		checkLang(~f, g.inv(lc), g.al, "~Append");
		checkLang(*f, g.star(lc), g.al, "*Append");
		checkLang(f.Surrounded(), g.surround(lc), g.al, "Surrounded");
		Fsm h;
		h.Append(ystring(t + u));
		checkLang(h, g.str(t + u), g.al, "Append(string)");
		TVector<ystring> v{s, t, u, "\x01"};
		Fsm k;
		k.AppendStrings(v);
		L lk = g.alt(g.alt(lc, g.str(t)), g.alt(g.str(u), g.str("\x01")));
		checkLang(k, lk, g.al, "AppendStrings");
		checkLang(k + f, g.cat(lk, lc), g.al, "AppendStrings+Append");
		checkLang(k & f, g.conj(lk, lc), g.al, "AppendStrings&Append");
		Fsm d;
		d.AppendDot().Append((char)c).AppendDot();
		checkLang(d, g.cat(g.cat(g.bytes(), lc), g.bytes()), g.al, ".c.");
	});
}

// ---- all small sets of alternative strings, in every order, in several contexts -----------------------------
static void alternativesPhase() {
	std::vector<std::string> strs;
	for (int len = 1; len <= 3; ++len)
		for (int m = 0; m < (1 << len); ++m) {
			std::string s;
			for (int i = 0; i < len; ++i) s += (m >> i & 1) ? 'b' : 'a';
			strs.push_back(s);
		}
	size_t n = strs.size(); // 14
	size_t total = n + n * n + n * n * n;
	auto pick = [=](uint64_t i) {
		std::vector<std::string> v;
		if (i < n) v = {strs[i]};
		else if (i < n + n * n) { i -= n; v = {strs[i / n], strs[i % n]}; }
		else { i -= n + n * n; v = {strs[i / n / n], strs[i / n % n], strs[i % n]}; }
		return v;
	};
	mc::phase("alternatives", total, [&](uint64_t i) {
		std::string r;
		for (auto& s : pick(i)) r += s + " ";
		return "strings " + r;
	}, [&](uint64_t i) {
		ref::Lang& g = lang();
		auto v = pick(i);
		L la = g.none();
		TVector<ystring> tv;
		for (auto& s : v) { la = g.alt(la, g.str(s)); tv.push_back(s); }
		{
			Fsm f; f.AppendStrings(tv);
			checkLang(f, la, g.al, "alone");
			f.AppendStrings(tv);
			checkLang(f, g.cat(la, la), g.al, "twice");
		}
		{
			Fsm f; f.Append('a').Iterate(); f.AppendStrings(tv); f.Append('b');
			checkLang(f, g.cat(g.cat(g.star(g.str("a")), la), g.str("b")), g.al, "a* strings b");
		}
		if (i % 7 == 0) {
			Fsm a; a.Append('a'); Fsm b; b.Append('b');
			Fsm f = (a | b | Fsm()); f.AppendStrings(tv); f.Iterate();
			checkLang(f, g.star(g.cat(g.alt(g.alt(g.str("a"), g.str("b")), g.eps()), la)), g.al, "((a|b|) strings)*");
		}
	});
}

// ---- n-fold repetition up to large n, wide alternations, long strings ---------------------------------------
static void largePhase() {
	Pool p;
	p.nul = {EPS, FALSE_, A, STR, ALTS, DOT, EMARK};
	p.un = {STAR, SURR, NOT};
	p.build(2);
	memo.clear();
	int maxn = mc::ctx().thorough ? 40 : 20;
	mc::phase("powers", p.nodes.size() * maxn, [&](uint64_t i) { return p.text(i / maxn) + " * " + std::to_string(i % maxn); }, [&](uint64_t i) {
		// conjunction-like growth (anything before or after, n times) is kept small
		int n = i % maxn, e = i / maxn;
		if (p.nodes[e].op == NOT && n > 6) return;
		L l = lang().pow(refl(p, e, memo), n);
		checkLang(build(p, e) * n, l, lang().al, "power");
		Fsm f = build(p, e); f *= n; f.Append('b');
		checkLang(f, lang().cat(l, lang().str("b")), lang().al, "power, append");
	});
	std::vector<int> sizes{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600};
	mc::phase("long", sizes.size() * 3, [&](uint64_t i) { return "size " + std::to_string(sizes[i / 3]) + " variant " + std::to_string(i % 3); }, [&](uint64_t i) {
		int n = sizes[i / 3];
		ref::Lang g(ref::Alpha::letters("ab"));
		std::string s;
		for (int k = 0; k < n; ++k) s += (k * k % 7 < 3) ? 'a' : 'b';
		// the reference for a long string is written out directly: a chain
		auto chain = [&](const std::string& w) {
			ref::Dfa d; d.k = g.al.k; int m = w.size();
			d.fin.assign(m + 2, 0); d.fin[m] = 1;
			d.tr.assign((m + 2) * d.k, m + 1);
			for (int k = 0; k < m; ++k) d.tr[k * d.k + g.al.cls[(unsigned char)w[k]]] = k + 1;
			return g.mk(d);
		};
		if (i % 3 == 0) {
			Fsm f; f.Append(ystring(s));
			checkLang(f, chain(s), g.al, "long string");
		} else if (i % 3 == 1) {
			// n words of length 12 as an alternation built one by one
			Fsm f = Fsm::MakeFalse(); L l = g.none();
			int m = std::min(n, 64);
			for (int k = 0; k < m; ++k) {
				std::string w;
				for (int b = 0; b < 7; ++b) w += ((k * 37 + 11) >> b & 1) ? 'a' : 'b';
				Fsm x; x.Append(ystring(w));
				f |= x; l = g.alt(l, chain(w));
			}
			checkLang(f, l, g.al, "wide alternation");
		} else {
			// unions of unions
			Fsm a; a.Append(ystring(s));
			Fsm b; b.AppendDot();
			Fsm c = (a | b) | (b | a); c |= (Fsm() | b);
			checkLang(c, g.alt(g.alt(chain(s), g.bytes()), g.eps()), g.al, "union of unions");
		}
	});
}

// ---- larger operands -----------------------------------------------------------------------------------------
static void largerOperandsPhase() {
	ref::Lang& g = lang();
	struct Big { std::string name; Fsm f; L l; };
	std::vector<Big> pool;
	auto str = [](const std::string& s) { Fsm f; f.Append(ystring(s)); return f; };
	std::vector<std::vector<std::string>> sets = {
		{"abca", "abcb", "abba"}, {"a", "ab", "abc", "abca"}, {"aaaa", "aaab", "bbbb", "cacb"}, {"abcabcab"}, {"c", "bc", "abc", "cabc"}, {"ab", "ba", "ac", "ca", "bc", "cb"}};
	for (auto& set : sets) {
		std::string n = "{";
		Fsm f = str(set[0]); L l = g.str(set[0]);
		for (size_t i = 0; i < set.size(); ++i) { n += (i ? "," : "") + set[i]; if (i) { f |= str(set[i]); l = g.alt(l, g.str(set[i])); } }
		n += "}";
		pool.push_back({n, f, l});
		pool.push_back({"star " + n, *f, g.star(l)});
		pool.push_back({"optional " + n, f | Fsm(), g.alt(l, g.eps())});
		Fsm h; TVector<ystring> tv; for (auto& x : set) tv.push_back(x); h.AppendStrings(tv);
		pool.push_back({"strings " + n, h, l});
		pool.push_back({"not " + n, ~f, g.inv(l)});
		Fsm d = str("ab"); d.AppendDot(); d += f;
		pool.push_back({"ab. " + n, d, g.cat(g.cat(g.str("ab"), g.bytes()), l)});
		pool.push_back({"surrounded " + n, f.Surrounded(), g.surround(l)});
	}
	size_t n = pool.size();
	const int SHAPES = 8;
	static const char* shape[] = {"x|y", "xy", "x&y", "x&~y", "(x|y)*", "x|y|x", "x{2}y", "(x|y)&(y|x|)"};
	mc::phase("larger operands", n * n * SHAPES, [&](uint64_t i) { return std::string(shape[i % SHAPES]) + " of " + pool[i / SHAPES / n].name + " ; " + pool[i / SHAPES % n].name; }, [&](uint64_t i) {
		const Big& x = pool[i / SHAPES / n]; const Big& y = pool[i / SHAPES % n];
		Fsm z; L l;
		switch (i % SHAPES) {
			case 0: z = x.f | y.f; l = g.alt(x.l, y.l); break;
			case 1: z = x.f + y.f; l = g.cat(x.l, y.l); break;
			case 2: z = x.f & y.f; l = g.conj(x.l, y.l); break;
			case 3: z = x.f & ~y.f; l = g.conj(x.l, g.inv(y.l)); break;
			case 4: z = *(x.f | y.f); l = g.star(g.alt(x.l, y.l)); break;
			case 5: z = x.f | y.f | x.f; l = g.alt(x.l, y.l); break;
			case 6: z = x.f * 2 + y.f; l = g.cat(g.cat(x.l, x.l), y.l); break;
			case 7: z = x.f | y.f; z &= (y.f | x.f | Fsm()); l = g.alt(x.l, y.l); break;
		}
		if (l->n() > 400) return;      // the nondeterministic products would not be small
		auto sc = z.Compile<Pire::Scanner>();
		std::string e = mc::compare(sc, *l, g.al);
		if (!e.empty()) mc::violation("scanner: " + e);
	});
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	Pool full;
	full.nul = {EPS, FALSE_, A, B, STR, ALTS, DOT, BMARK, EMARK};
	full.un = {STAR, NOT, POW0, POW2, POW3, SURR, PREP, APP, ADD_A, ADD_STR, ADD_ALTS, ADD_DOT, ADD_EM, SELFCAT, SELFOR, SELFAND};
	full.bin = {CAT, OR, AND};
	full.build(3);
	exprPhase("expr<=3", full, 0);
	reprPhase("operands of every representation", full, 0);
	bytePhase();
	alternativesPhase();
	operandPhase();
	largePhase();
	largerOperandsPhase();
	Pool deep;
	deep.nul = {EPS, A, DOT, BMARK};
	deep.un = {STAR, NOT, SURR, ADD_A, POW2};
	deep.bin = {CAT, OR, AND};
	deep.build(th ? 6 : 5);
	exprPhase("deep", deep, deep.begin[5]);
	Pool mid;
	mid.nul = {EPS, A, STR, DOT, BMARK};
	mid.un = {STAR, NOT, SURR, ADD_A, ADD_ALTS, POW2};
	mid.bin = {CAT, OR, AND};
	mid.build(th ? 5 : 4);
	reprPhase("operands of every representation, deep", mid, mid.begin[4]);
	full.nodes.clear();
	full.build(th ? 5 : 4);
	exprPhase("expr=4+", full, full.begin[4]);
	return mc::finish();
}
