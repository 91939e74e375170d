// P06: encodings map characters to bytes exactly as UTF-8 and Latin-1 define.
#include "repat.h"
using namespace refre;

/// A buffer whose end coincides with the end of a readable page.
struct Edge {
	char* p; size_t page;
	Edge() {
		page = sysconf(_SC_PAGESIZE);
		p = (char*)mmap(0, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(p + page, page, PROT_NONE);
	}
	const char* put(const std::string& s) { char* q = p + page - s.size(); memcpy(q, s.data(), s.size()); return q; }
};
static Edge edge;

/// reference decoder: length of the first character, 0 if malformed or truncated
static int ref8(const unsigned char* s, size_t n, C32& v) {
	for (auto& w : wellFormed()) {
		if (w.size() > n) continue;
		bool ok = true;
		for (size_t i = 0; i < w.size() && ok; ++i) ok = s[i] >= w[i].first && s[i] <= w[i].second;
		if (!ok) continue;
		static const int mask[] = {0, 0x7F, 0x1F, 0x0F, 0x07};
		v = s[0] & mask[w.size()];
		for (size_t i = 1; i < w.size(); ++i) v = v << 6 | (s[i] & 0x3F);
		return (int)w.size();
	}
	return 0;
}

static void decode(const std::string& s, bool utf8) {
	const Pire::Encoding& e = utf8 ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	const char* b = edge.put(s);
	const char* end = b + s.size();
	const char* q = b;
	C32 v = 0;
	int n = utf8 ? ref8((const unsigned char*)b, s.size(), v) : (!s.empty() && !(s[0] & 0x80) ? (v = s[0], 1) : 0);
	++mc::ctx().st.states; ++mc::ctx().st.transitions;
	if (n) ++mc::ctx().st.nontrivial;
	try {
		Pire::wchar32 c = e.FromLocal(q, end);
		if (!n) { mc::violation("malformed bytes " + mc::show(s) + " decoded as " + std::to_string(c)); return; }
		if (c != v || q != b + n) mc::violation("bytes " + mc::show(s) + " decoded as " + std::to_string(c) + ", length " + std::to_string(q - b));
	} catch (const Pire::Error&) {
		if (n) mc::violation("bytes " + mc::show(s) + " rejected");
	}
}

/// whole-range conversion
static void decodeAll(const std::string& s, bool utf8) {
	const Pire::Encoding& e = utf8 ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	const char* b = edge.put(s);
	std::vector<C32> want, got;
	bool ok = true;
	for (size_t i = 0; i < s.size();) {
		C32 v = 0;
		int n = utf8 ? ref8((const unsigned char*)b + i, s.size() - i, v) : !(s[i] & 0x80) ? (v = s[i], 1) : 0;
		if (!n) { ok = false; break; }
		want.push_back(v); i += n;
	}
	++mc::ctx().st.states;
	mc::ctx().st.transitions += s.size();
	try {
		e.FromLocal(b, b + s.size(), std::back_inserter(got));
		if (!ok) mc::violation("malformed text " + mc::show(s) + " converted");
		else if (got != want) mc::violation("text " + mc::show(s) + " converted to other characters");
	} catch (const Pire::Error&) {
		if (ok) mc::violation("well-formed text " + mc::show(s) + " rejected");
	}
}

/// The language of an automaton without cycles, as a set of words (empty optional: infinite or too large).
static bool words(const Pire::Fsm& f, std::set<std::vector<int>>& out, size_t state, std::vector<int>& w) {
	if (f.IsFinal(state)) out.insert(w);
	if (w.size() > 6 || out.size() > 40) return false;
	for (int l = 0; l < (int)Pire::MaxChar; ++l)
		for (size_t t : f.Destinations(state, l)) {
			if (l != (int)Pire::Epsilon) w.push_back(l);
			bool r = words(f, out, t, w);
			if (l != (int)Pire::Epsilon) w.pop_back();
			if (!r) return false;
		}
	return true;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	Opts lat, utf; utf.utf8 = true;
	const Pire::Encoding& U = Pire::Encodings::Utf8();
	const Pire::Encoding& L1 = Pire::Encodings::Latin1();
	auto hexs = [](uint64_t v) { char b[32]; snprintf(b, sizeof b, "U+%04llX", (unsigned long long)v); return std::string(b); };

	// ---- encoding and decoding of every code point, 256 per item, and of some values beyond Unicode
	mc::phase("code points", 0x1200, [&](uint64_t i) { return hexs(i << 8) + "..FF"; }, [&](uint64_t i) {
		for (C32 c = i << 8; c < ((i + 1) << 8); ++c) {
			++mc::ctx().st.states; mc::ctx().st.transitions += 4;
			std::string s = U.ToLocal(c), l = L1.ToLocal(c);
			if (l != encode(c, false)) mc::violation(hexs(c) + " in Latin-1: " + mc::show(l));
			if (c >= 0xD800 && c < 0xE000) continue;       // not characters
			if (s != encode(c, true)) { mc::violation(hexs(c) + " in UTF-8: " + mc::show(s)); continue; }
			if (s.empty()) continue;
			++mc::ctx().st.nontrivial;
			decode(s, true);
			decode(s + "a", true);
			decode(s.substr(0, s.size() - 1), true);
			decode(s.substr(0, s.size() - 1) + "a", true);
		}
	});
	mc::phase("beyond Unicode", 64, [&](uint64_t i) { return "block " + std::to_string(i); }, [&](uint64_t i) {
		for (C32 k = 0; k < 512; ++k) {
			C32 c = (C32)(0x110000u + i * 0x3FBBCDu + k);
			if (c < 0x110000) continue;
			++mc::ctx().st.states;
			if (!U.ToLocal(c).empty() || !L1.ToLocal(c).empty()) mc::violation(hexs(c) + " was encoded");
		}
	});
	// ---- all byte sequences
	mc::phase("byte sequences", 257, [&](uint64_t i) { return i == 256 ? std::string("empty") : "first byte " + std::to_string(i); }, [&](uint64_t i) {
		if (i == 256) { decode("", true); decode("", false); return; }
		std::string s(1, (char)i);
		decode(s, true); decode(s, false);
		for (int b = 0; b < 256; ++b) {
			std::string s2 = s + (char)b;
			decode(s2, true); decode(s2, false);
			for (int c = 0; c < 256; ++c) {
				if (!th && i < 0xC0 && c % 16 && c % 16 != 15) continue;      // one-byte characters and stray bytes: the rest does not matter
				decode(s2 + (char)c, true);
			}
		}
	});
	{
		static const unsigned char bnd[] = {0, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xFF};
		mc::phase("four bytes and more", 0x40 * 256, [&](uint64_t i) { return "bytes " + std::to_string(0xC0 + i / 256) + " " + std::to_string(i % 256); }, [&](uint64_t i) {
			std::string s; s += (char)(0xC0 + i / 256); s += (char)(i % 256);
			for (unsigned char c : bnd) for (unsigned char d : bnd) {
				std::string t = s + (char)c + (char)d;
				decode(t, true);
				if (c == 0x80 || d == 0xBF || th) for (unsigned char e : {0x80, 0xBF, 0x41, 0xC2}) { decode(t + (char)e, true); if (e == 0x80 && s[0] > '\xF7') decode(t + (char)e + "\x80", true); }
			}
		});
		std::vector<std::string> pieces = {"a", "\x7f", "\xc2\x80", "\xd1\x8f", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", "\x80", "\xc2", "\xe2\x82", "\xf4\x90\x80\x80", std::string(1, 0)};
		const int LEN = th ? 6 : 5;
		uint64_t n = 1, tot = 0; std::vector<uint64_t> upto;
		for (int l = 0; l <= LEN; ++l) { tot += n; upto.push_back(tot); n *= pieces.size(); }
		auto get = [&](uint64_t i) {
			int l = 0; while (i >= upto[l]) ++l;
			if (l) i -= upto[l - 1];
			std::string s; while (l--) { s += pieces[i % pieces.size()]; i /= pieces.size(); }
			return s;
		};
		mc::phase("whole texts", tot, [&](uint64_t i) { return mc::show(get(i)); }, [&](uint64_t i) { decodeAll(get(i), true); decodeAll(get(i), false); });
	}
	// ---- one character in a pattern
	mc::phase("characters of a pattern", 0x1100, [&](uint64_t i) { return hexs(i << 8) + "..FF in a pattern"; }, [&](uint64_t i) {
		for (C32 c = i << 8; c < ((i + 1) << 8); ++c) {
			if (!isScalar(c)) continue;
			U32 p{c};
			if (c < 0x80 && strchr("|().*+?^$\\[{", (int)c) && c) p = {'\\', c};
			for (int enc = 0; enc < 2; ++enc) {
				if (!enc && c >= 0x3000 && (c & 0xFF) > 1 && !th) continue;
				std::string want = encode(c, enc);
				std::set<std::vector<int>> w;
				std::vector<int> cur;
				Pire::Fsm f;
				try { f = parsePire(p, enc ? utf : lat); } catch (const Pire::Error& e) { mc::violation(show(p) + " rejected: " + e.what()); continue; }
				++mc::ctx().st.states; mc::ctx().st.transitions += f.Size() * Pire::MaxChar;
				bool fin = words(f, w, f.Initial(), cur);
				std::set<std::vector<int>> exp;
				if (!want.empty()) { std::vector<int> v; for (unsigned char b : want) v.push_back(b); exp.insert(v); }
				if (!fin || w != exp) mc::violation(show(p) + (enc ? " utf8" : "") + " does not match exactly the bytes " + mc::show(want));
			}
		}
	});
	{
		// compiled: boundary characters, alone and between others, also repeated and negated
		std::vector<C32> cs;
		for (C32 b : {0x80u, 0x100u, 0x400u, 0x7C0u, 0x800u, 0xFFFu, 0x1000u, 0xD7FFu, 0xE000u, 0xF000u, 0xFFFFu, 0x10000u, 0x1F000u, 0x40000u, 0x100000u, 0x10FFFFu})
			for (int d = -3; d <= 3; ++d) { C32 c = b + d; if (isScalar(c) && std::find(cs.begin(), cs.end(), c) == cs.end()) cs.push_back(c); }
		for (C32 c = th ? 0 : 0xF0; c < (th ? 0x900u : 0x110u); ++c) if (std::find(cs.begin(), cs.end(), c) == cs.end() && !(c < 0x80 && strchr("|().*+?^$\\[{]-", (int)c))) cs.push_back(c);
		std::vector<std::pair<std::string, std::string>> ctx = {{"", ""}, {"a", "b"}, {"(", ")*"}, {"[^", "]"}, {"[", "я]+"}, {"", "{2,3}."}, {"я|", "|.."}, {"[^a", "]?$"}, {"^", ".$"}, {".", "."}, {"abcdefgh", "ijklmnop"}, {"(abc|x)", "(de|яf)"}, {"(abcd|", "|efgh)k"}, {"a+b+c*", ""}, {"(я.", ")+z"}};
		auto get = [&](uint64_t i) { auto& x = ctx[i / 2 % ctx.size()]; return cat(u32(x.first), U32{cs[i / 2 / ctx.size()]}, u32(x.second)); };
		mc::phase("compiled characters", cs.size() * ctx.size() * 2, [&](uint64_t i) { return show(get(i)) + (i % 2 ? " utf8" : ""); }, [&](uint64_t i) {
			const Opts& o = i % 2 ? utf : lat;
			P t = parse(get(i), o);
			std::string e = checkLang(parsePire(get(i), o), t, o);
			if (!e.empty()) mc::violation(e);
		});
	}
	{
		// a dot, appended to automata in different internal states
		std::vector<std::string> pats = {"", "a", "я", "a|b", "(a|я)*", "[^a]", ".", "..", "^a$", "a*я?", "(.|a)*b", "€", "[a-zа-я]", "(ab|b)*"};
		std::vector<std::string> prep = {"", "canonize", "determine", "complement", "reverse twice", "unsparse", "sparse", "removeends", "surround", "iterate", "prefix"};
		std::vector<std::string> tail = {".", ".a", "..", "a."};
		uint64_t n = pats.size() * prep.size() * tail.size() * 2;
		auto name = [&](uint64_t i) { return pats[i / 2 % pats.size()] + " " + prep[i / 2 / pats.size() % prep.size()] + " then " + tail[i / 2 / pats.size() / prep.size()] + (i % 2 ? " utf8" : ""); };
		mc::phase("appended dots", n, name, [&](uint64_t i) {
			const Opts& o = i % 2 ? utf : lat;
			const Pire::Encoding& e = i % 2 ? U : L1;
			std::string p = pats[i / 2 % pats.size()], how = prep[i / 2 / pats.size() % prep.size()], t = tail[i / 2 / pats.size() / prep.size()];
			P tree = parse(u32(p), o), at = parse(u32("a"), o);
			Denote den(o, {tree, at});
			ref::L l = den.eval(tree);
			Pire::Fsm f = parsePire(u32(p), o);
			ref::Lang& R = *den.lang;
			if (how == "canonize") f.Canonize();
			else if (how == "determine") f.Determine();
			else if (how == "complement") { f.Complement(); l = R.inv(l); }
			else if (how == "reverse twice") { f.Reverse(); f.Reverse(); }
			else if (how == "unsparse") { f.Canonize(); f.Unsparse(); }
			else if (how == "sparse") f.Sparse();
			else if (how == "removeends") f.RemoveDeadEnds();
			else if (how == "surround") { f.Surround(); l = R.surround(l); }
			else if (how == "iterate") { f.Iterate(); l = R.star(l); }
			else if (how == "prefix") { f.MakePrefix(); l = R.prefixes(l); }
			for (char c : t) {
				if (c == '.') { e.AppendDot(f); l = R.cat(l, den.dot); }
				else { f.Append('a'); l = R.cat(l, R.letter('a')); }
			}
			ref::L dom = den.texts();
			if (how == "prefix" && i % 2) return;     // cuts characters: only the byte encoding has a plain meaning
			mc::ProdOpts po; po.domain = dom.get(); po.marks = 1;
			Pire::Scanner sc = f.Compile<Pire::Scanner>();
			std::string r = mc::compare(sc, *l, den.lang->al, po);
			if (!r.empty()) mc::violation(r);
		});
	}
	return mc::finish();
}
