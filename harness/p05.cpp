// P05: malformed patterns are rejected with the library's error, parsing terminates, and an error leaves nothing
// behind in the lexer.
#include "repat.h"
using namespace refre;

static bool sameFsm(const Pire::Fsm& a, const Pire::Fsm& b) {
	if (a.Size() != b.Size() || a.Initial() != b.Initial() || a.Finals() != b.Finals()) return false;
	for (size_t s = 0; s < a.Size(); ++s)
		for (int l = 0; l < (int)Pire::MaxChar; ++l)
			if (a.Destinations(s, l) != b.Destinations(s, l)) return false;
	return true;
}

/// 1 parsed, 0 rejected with the library's error; anything else is a violation
static int tryParse(Pire::Lexer& lx, Pire::Fsm* out) {
	try { Pire::Fsm f = lx.Parse(); if (out) *out = f; return 1; }
	catch (const Pire::Error&) { return 0; }
}

enum { Lang = 1, Reuse = 2, MayReject = 4 };

static bool noLang;

static void explore(const U32& p, const Opts& o, int what) {
	if (noLang) what &= ~Lang;       // the sanitized run looks for memory errors in the parser
	P tree = parse(p, o);
	++mc::ctx().st.states;
	mc::ctx().st.transitions += p.size() + 1;
	Pire::Lexer lx(p.begin(), p.end());
	setup(lx, o);
	Pire::Fsm f;
	int ok = tryParse(lx, &f);
	if (!ok && tree && (what & MayReject)) { mc::count("rejected for its depth"); return; }
	if (ok != (tree ? 1 : 0)) { mc::violation(ok ? "malformed pattern accepted" : "well-formed pattern rejected"); return; }
	mc::count(ok ? "accepted" : "rejected");
	if (ok && (what & Lang)) {
		std::string e = checkLang(f, tree, o);
		if (!e.empty()) mc::violation(e);
	}
	if (!ok && p.size() > 2) { ++mc::ctx().st.nontrivial; mc::sample(show(p)); }
	if (what & Reuse) {
		// the same lexer object goes on with other patterns
		static const U32 again[] = {u32("(a|bc)*d"), u32("[b-d]"), u32("a(b"), u32("")};
		for (const U32& g : again) {
			lx.Assign(g.begin(), g.end());
			Pire::Fsm x, y;
			int r = tryParse(lx, &x);
			Pire::Lexer fresh(g.begin(), g.end());
			setup(fresh, o);
			int r2 = tryParse(fresh, &y);
			++mc::ctx().st.replays;
			if (r != r2) { mc::violation("afterwards the lexer " + std::string(r ? "accepts " : "rejects ") + show(g) + ", unlike a new lexer"); return; }
			if (r && !sameFsm(x, y)) { mc::violation("afterwards the lexer reads " + show(g) + " unlike a new lexer"); return; }
		}
		lx.Assign(p.begin(), p.end());
		Pire::Fsm x;
		if (tryParse(lx, &x) != ok || (ok && !sameFsm(x, f))) mc::violation("the same pattern is read differently the second time");
	}
}

static void family(const std::string& name, const std::vector<std::string>& tok, int len, const Opts& o, int what,
                   const std::string& before = "", const std::string& after = "") {
	Seqs s(tok, len);
	U32 b = u32(before), a = u32(after);
	auto get = [&](uint64_t i) { return cat(b, s.get(i), a); };
	mc::phase(name, s.total, [&](uint64_t i) { return show(get(i)) + tag(o); }, [&](uint64_t i) { explore(get(i), o, what); });
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	bool small = noLang = getenv("P05_SMALL");
	Opts lat, utf, an;
	utf.utf8 = true; an.andnot = true;
	int d = small ? 1 : 0;
	std::vector<std::string> chars = {"a", "x", "1", "\\", "[", "]", "^", "-", "{", "}", ",", "(", ")", "|", "*", "d", "."};
	family("characters", chars, (th ? 6 : 5) - d, lat, 0);
	family("characters and verdicts", chars, (th ? 5 : 4) - d, lat, Lang);
	family("reused lexer", {"a", "x", "\\", "[", "]", "-", "{", "}", "1", "(", ")", "|", "*", "W"}, (th ? 5 : 4) - d, utf, Reuse);
	family("operators", {"a", "|", "(", ")", "*", "?", "{1}", "^", "."}, (th ? 7 : 6) - d, lat, 0);
	family("and-not", {"a", "\\", "&", "~", "(", ")", "|", "[", "]", "*"}, (th ? 6 : 5) - d, an, Lang | Reuse);
	family("counts", {"0", "1", "2", ",", "}", "a", " ", "-"}, (th ? 6 : 5) - d, lat, 0, "a{");
	family("count verdicts", {"0", "1", "3", ",", "}", "a"}, (th ? 5 : 4) - d, lat, Lang, "(a|bb){");
	family("hexadecimal", {"0", "4", "1", "F", "c", "g", "{", "}", "\\", "x"}, 5 - d, utf, Lang, "\\x");
	family("hexadecimal in brackets", {"0", "4", "F", "{", "}", "\\x", "-", "^", "]"}, (th ? 6 : 5) - d, utf, Lang, "[\\x41", "]");
	family("classes in brackets", {"\\w", "\\W", "\\D", "\\d", "-", "^", "a", "]", "\\n", "\\", "\\."}, (th ? 5 : 4) - d, utf, Lang, "[", "]");
	{
		// every character in every place where only some characters are allowed
		std::vector<std::pair<std::string, std::string>> ctx = {
			{"", ""}, {"\\", ""}, {"[", "]"}, {"[\\", "]"}, {"[a-", "]"}, {"[a-\\", "]"}, {"[", "-b]"}, {"a{", "}"}, {"a{1", "}"}, {"a{1,", "}"},
			{"\\x", "1"}, {"\\x1", ""}, {"\\x{", "}"}, {"\\x{1", "}"}, {"(", ")"}, {"a", "*"} };
		const uint64_t N = small ? 0x500 : th ? 0x110000 : 0x30000, X = ctx.size();
		auto get = [&](uint64_t i) {
			C32 c = i / X;
			if (c > 0x600 && (i % X == 4 || i % X == 5))      // keep the ranges small
				return cat(U32{'[', c - 1}, u32(i % X == 4 ? "-" : "-\\"), U32{c, ']'});
			return cat(u32(ctx[i % X].first), U32{c}, u32(ctx[i % X].second));
		};
		mc::phase("every character", N * X, [&](uint64_t i) { return show(get(i)) + " utf8"; }, [&](uint64_t i) { explore(get(i), utf, 0); });
		// a few control-like characters beyond Unicode's planes 0-2
		std::vector<C32> odd;
		for (C32 hi : {0x10u, 0xEu, 0xFu, 0x3u}) for (C32 lo = 0; lo < 0x10000; lo += 1) if ((lo & 0xFF00) == 0xF000 || lo < 0x100 || lo >= 0xFF00) odd.push_back(hi << 16 | lo);
		auto geto = [&](uint64_t i) { return cat(u32(ctx[i % 4].first), U32{odd[i / 4]}, u32(ctx[i % 4].second)); };
		mc::phase("characters of high planes", small ? 64 : odd.size() * 4, [&](uint64_t i) { return show(geto(i)) + " utf8"; }, [&](uint64_t i) { explore(geto(i), utf, Lang); });
	}
	{
		// numbers around the limits of their types
		std::vector<std::string> nums = {"2147483648", "2147483650", "4294967295", "4294967296", "4294967297", "9999999999", "18446744073709551615",
			"18446744073709551616", "18446744073709551617", "99999999999999999999999999", "0", "00", "01", "0000000000000000001", "3"};
		uint64_t n = nums.size();
		auto get = [&](uint64_t i) {
			std::string a = nums[i / 4 % n], b = nums[i / 4 / n];
			switch (i % 4) { case 0: return u32("a{" + a + "}"); case 1: return u32("a{" + a + ",}"); case 2: return u32("(a{" + a + "," + b + "})b"); default: return u32("a{" + a + "}{" + b + "}"); }
		};
		mc::phase("large counts", n * n * 4, [&](uint64_t i) { return show(get(i)); }, [&](uint64_t i) { explore(get(i), lat, Lang | Reuse); });
		std::vector<std::string> hexs = {"110000", "10FFFF", "10ffff", "0010FFFF", "FFFFFFFF", "100000041", "FFFFFFFFFFFFFFFF", "10000000000000041", "00000000000000000000041", "80000000", "F00000FF", "F0000077", "D800", "DFFF", "E000", "0"};
		uint64_t h = hexs.size();
		auto geth = [&](uint64_t i) {
			std::string a = hexs[i / 4];
			switch (i % 4) { case 0: return u32("\\x{" + a + "}"); case 1: return u32("[\\x{" + a + "}]"); case 2: return u32("[^\\x{" + a + "}]*"); default: return u32("[\\x{" + a + "}-\\x{" + a + "}]"); }
		};
		mc::phase("large hexadecimal", h * 4, [&](uint64_t i) { return show(geth(i)) + " utf8"; }, [&](uint64_t i) { explore(geth(i), utf, Lang | Reuse); });
	}
	{
		// nesting depth and length; the parser's stack is bounded, so deeply nested patterns may be rejected as well
		auto rep = [](const std::string& s, size_t n) { std::string r; while (n--) r += s; return r; };
		std::vector<size_t> depth;
		for (size_t i = 1; i <= 200; ++i) depth.push_back(i);
		for (size_t i = 250; i <= (small ? 500 : 3000); i += 250) depth.push_back(i);
		auto get = [&](uint64_t i) {
			size_t n = depth[i / 6];
			switch (i % 6) {
				case 0: return u32(rep("(", n) + "a" + rep(")", n));
				case 1: return u32(rep("(", n) + "a" + rep(")", n - 1));
				case 2: return u32(rep("(", n) + "a" + rep(")", n + 1));
				case 3: return u32(rep("(", n) + "a" + rep(")*", n));
				case 4: return u32(rep("a|", n));
				default: return u32(rep("()", n) + "[");
			}
		};
		mc::phase("nesting", depth.size() * 6, [&](uint64_t i) { return show(get(i)).substr(0, 40) + " depth " + std::to_string(depth[i / 6]) + " form " + std::to_string(i % 6); },
			[&](uint64_t i) { explore(get(i), lat, depth[i / 6] <= 20 && i % 6 != 3 ? Lang : depth[i / 6] > 90 ? MayReject : 0); });
	}
	return mc::finish();
}
