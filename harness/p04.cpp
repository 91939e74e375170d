// P04: a parsed pattern matches exactly the texts its documented syntax denotes.
//
// All patterns of bounded length over several token alphabets (and all bracket contents over a character
// alphabet) that the documented grammar contains; each is parsed and compiled by pire and the compiled scanner's
// product with the reference language is exhausted.
#include "repat.h"
using namespace refre;

static void explore(const U32& p, const Opts& o) {
	P tree = parse(p, o);
	if (!tree) { mc::count("malformed"); return; }     // P05 decides those
	Pire::Fsm f;
	try { f = parsePire(p, o); } catch (const Pire::Error& e) { mc::violation("valid pattern rejected: " + std::string(e.what())); return; }
	std::string e = checkLang(f, tree, o);
	if (!e.empty()) mc::violation(e);
	else if (p.size() > 3) mc::sample(show(p) + tag(o));
}

static void family(const std::string& name, const std::vector<std::string>& tok, int len, const Opts& o) {
	Seqs s(tok, len);
	mc::phase(name, s.total, [&](uint64_t i) { return show(s.get(i)) + tag(o); }, [&](uint64_t i) { explore(s.get(i), o); });
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	Opts lat, utf, an, uan;
	utf.utf8 = true; an.andnot = true; uan.utf8 = uan.andnot = true;
	family("syntax", {"a", "b", ".", "[ab]", "[^a]", "^", "$", "|", "(", ")", "*", "+", "?", "{2}", "{1,}", "{0,2}"}, th ? 5 : 4, lat);
	family("grouping", {"a", "b", "|", "(", ")", "*", "?"}, th ? 7 : 6, lat);
	family("and-not", {"a", "b", ".", "&", "~", "|", "(", ")", "*"}, th ? 6 : 5, an);
	family("utf8", {"a", "я", "€", ".", "[aя]", "[^я]", "|", "(", ")", "*", "{2}", "\\w", "𝄞"}, th ? 5 : 4, utf);
	family("utf8 and-not", {"a", "я", ".", "[^a]", "&", "~", "(", ")", "$"}, th ? 5 : 4, uan);
	{
		// repetition counts: atom{n,m}, nested and followed by something
		std::vector<std::string> atoms = {"a", ".", "[ab]", "(ab)", "(a|)", "(a*)", "(a|bb)", "^", "$", "[^a]", "()", "я", "(aя)", "(a?b)"};
		const int N = th ? 9 : 6;
		std::vector<std::string> reps;
		for (int n = 0; n <= N; ++n) {
			reps.push_back("{" + std::to_string(n) + "}"); reps.push_back("{" + std::to_string(n) + ",}");
			for (int m = n; m <= N + 1; ++m) reps.push_back("{" + std::to_string(n) + "," + std::to_string(m) + "}");
		}
		for (auto s : {"*", "+", "?"}) reps.push_back(s);
		std::vector<std::string> ctx = {"%", "%b", "b%", "%a", "(%)*", "(%)?", "(%){2}", "a|%", "(%b){2,3}", "%%", "a%a"};
		auto get = [&](uint64_t i) {
			std::string a = atoms[i % atoms.size()]; i /= atoms.size();
			std::string r = reps[i % reps.size()]; i /= reps.size();
			std::string s;
			for (char c : ctx[i]) if (c == '%') s += a + r; else s += c;
			return u32(s);
		};
		uint64_t n = atoms.size() * reps.size() * ctx.size();
		mc::phase("counts", n, [&](uint64_t i) { return show(get(i)); }, [&](uint64_t i) { explore(get(i), utf); });
		// repetitions of repetitions
		std::vector<std::string> small;
		for (int n = 0; n <= 3; ++n) { small.push_back("{" + std::to_string(n) + ",}"); for (int m = n; m <= 3; ++m) small.push_back("{" + std::to_string(n) + "," + std::to_string(m) + "}"); }
		std::vector<std::string> at2 = {"a", "[ab]", "(ab)", "(a|bb)", ".", "(^|a)"};
		auto get2 = [&](uint64_t i) {
			std::string a = at2[i % at2.size()]; i /= at2.size();
			std::string r = small[i % small.size()]; i /= small.size();
			return u32("(" + a + r + ")" + small[i % small.size()] + (i / small.size() ? "b" : ""));
		};
		mc::phase("nested counts", at2.size() * small.size() * small.size() * 2, [&](uint64_t i) { return show(get2(i)); }, [&](uint64_t i) { explore(get2(i), lat); });
	}
	{
		// bracket contents, character by character
		Seqs s({"a", "c", "-", "^", "[", "\\", "]", "b"}, th ? 6 : 5);
		auto get = [&](uint64_t i) { U32 r = u32("x["), c = s.get(i); r.insert(r.end(), c.begin(), c.end()); r.push_back(']'); return r; };
		mc::phase("brackets", s.total, [&](uint64_t i) { return show(get(i)); }, [&](uint64_t i) { explore(get(i), lat); });
		Seqs u({"а", "в", "-", "^", "a", "€", "\\", ".", "|", "(", "{", "*"}, th ? 4 : 3);
		auto get2 = [&](uint64_t i) { U32 r = u32("["), c = u.get(i); r.insert(r.end(), c.begin(), c.end()); for (C32 x : u32("]*.")) r.push_back(x); return r; };
		mc::phase("utf8 brackets", u.total, [&](uint64_t i) { return show(get2(i)) + " utf8"; }, [&](uint64_t i) { explore(get2(i), utf); });
	}
	{
		// larger operands under every operator, and operators chained over several of them
		std::vector<std::string> big = {"abcd|abce|abde", "(abcd|abce|abde)+", "a(b|c){3}d", "[a-d]{4,6}", "(a{3}b?)*", "a.{4}b", "(ab|cd|ef|ac|bd)*", "^ab{5}$",
			"b|ab|abb|abbb|aabb", "(a|b|c|d|e|f)*abc", "a{10}", "(a{3}){2,4}", "[^a]{3}x", "яаб|яав|aя{3}", "(.{2}|.{3}b)+", "abcdefgh", "(a|ab)(c|bcd)(d*)", "((a|b)?c){3,}"};
		std::vector<std::string> ctx = {"X&Y", "X|Y", "(X)(Y)", "X&~(Y)", "~(X)|Y", "~(X|Y)", "((X)|Y)*", "(X){0,2}Y", "X&Y|X", "(X|Y)&(Y)", "~(X)&~(Y)", "X&Y&(X|Y)", "(X)?(Y)?", "(~(X))(Y)", "((X)&(Y))*c"};
		auto get = [&](uint64_t i) {
			std::string x = big[i % big.size()]; i /= big.size();
			std::string y = big[i % big.size()]; i /= big.size();
			std::string s;
			for (char c : ctx[i]) if (c == 'X') s += x; else if (c == 'Y') s += y; else s += c;
			return u32(s);
		};
		mc::phase("larger operands", big.size() * big.size() * ctx.size(), [&](uint64_t i) { return show(get(i)) + tag(uan); }, [&](uint64_t i) { explore(get(i), uan); });
	}
	return mc::finish();
}
