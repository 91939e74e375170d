// P07: character classes, case folding, hexadecimal escapes and glyph folding denote exact sets.
#include "repat.h"
#include "casetab.h"
#include <unordered_map>
using namespace refre;

struct Case { C32 up, lo; bool known; };
static std::unordered_map<C32, Case> cases;
static void hook(C32 c, Set& out) { auto it = cases.find(c); if (it != cases.end() && it->second.known) { out.insert(it->second.up); out.insert(it->second.lo); } }

static bool words(const Pire::Fsm& f, std::set<std::string>& out, size_t state, std::string& w, int depth = 0) {
	if (f.IsFinal(state)) out.insert(w);
	if (depth > 8 || out.size() > 40) return false;
	for (int l = 0; l < (int)Pire::MaxChar; ++l)
		for (size_t t : f.Destinations(state, l)) {
			if (l == (int)Pire::BeginMark || l == (int)Pire::EndMark) return false;
			if (l != (int)Pire::Epsilon) w.push_back((char)l);
			bool r = words(f, out, t, w, depth + 1);
			if (l != (int)Pire::Epsilon) w.pop_back();
			if (!r) return false;
		}
	return true;
}
static bool words(const U32& p, const Opts& o, std::set<std::string>& out, std::string& err) {
	try {
		Pire::Fsm f = parsePire(p, o);
		std::string w;
		++mc::ctx().st.states; mc::ctx().st.transitions += f.Size() * Pire::MaxChar;
		if (!words(f, out, f.Initial(), w)) { err = "infinite or unexpectedly large set"; return false; }
		return true;
	} catch (const Pire::Error& e) { err = e.what(); return false; }
}
static std::string showSet(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += mc::show(x) + " "; return r; }
static std::string hexs(C32 v) { char b[32]; snprintf(b, sizeof b, "%X", v); return b; }

static void full(const U32& p, const Opts& o) {
	P t = parse(p, o);
	Pire::Fsm f;
	try { f = parsePire(p, o); }
	catch (const Pire::Error& e) { if (t) mc::violation("well-formed pattern rejected: " + std::string(e.what())); return; }
	if (!t) { mc::violation("malformed pattern accepted"); return; }
	std::string e = checkLang(f, t, o);
	if (!e.empty()) mc::violation(e);
	else if (p.size() > 4) mc::sample(show(p) + tag(o));
}

static Opts flags(int i) { Opts o; o.utf8 = i & 1; o.icase = i & 2; o.glyphs = i & 4; o.andnot = i & 8; return o; }

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	for (auto& r : CaseTab) cases[r.c] = Case{r.upper, r.lower, (bool)r.known};
	caseHook = hook;
	Opts utf; utf.utf8 = true;

	{
		// every class, alone and in brackets, under every set of features
		std::vector<std::string> cl = {"\\w", "\\d", "\\s", "\\l", "\\c", "\\n", "\\r", "\\t", "\\W", "\\D", "\\S", "\\L", "\\C"};
		std::vector<std::string> pats;
		for (auto& c : cl) {
			for (auto x : {"%", "[%]", "[^%]", "%*", "a%b", "[%-]", "[-%]", "[a-c%]", "[%a-c]", "[%9 ]", "(%|a)+", "%%", "[%%]", "[%ж]"}) {
				std::string s;
				for (const char* q = x; *q; ++q) if (*q == '%') s += c; else s += *q;
				pats.push_back(s);
			}
			for (auto& d : cl) { pats.push_back("[" + c + d + "]"); pats.push_back("[" + c + "A" + d + "]"); pats.push_back(c + d); }
		}
		mc::phase("classes", pats.size() * 16, [&](uint64_t i) { return "/" + pats[i / 16] + "/" + tag(flags(i % 16)); }, [&](uint64_t i) { full(u32(pats[i / 16]), flags(i % 16)); });
		std::vector<std::string> trip;
		for (auto& a : {"\\W", "\\D", "\\S", "\\C", "\\w", "\\s"}) for (auto& b : {"\\D", "\\L", "\\S", "\\d"}) for (auto& c : {"\\W", "\\L", "a", "5", "я", "\\l"})
			trip.push_back(std::string("[") + a + b + c + "]");
		mc::phase("three members", trip.size() * 4, [&](uint64_t i) { return "/" + trip[i / 4] + "/" + tag(flags(i % 4)); }, [&](uint64_t i) { full(u32(trip[i / 4]), flags(i % 4)); });
	}
	// ---- hexadecimal escapes: every code point
	mc::phase("hexadecimal", 0x1100, [&](uint64_t i) { return "\\x{" + hexs(i << 8) + "..FF}"; }, [&](uint64_t i) {
		for (C32 c = i << 8; c < ((i + 1) << 8); ++c) {
			if (!isScalar(c)) continue;
			std::string s = hexs(c), low = s;
			for (char& x : low) x = tolower(x);
			std::vector<std::string> forms = {"\\x{" + s + "}"};
			if (c < 0x3000 || (c & 0xFF) == 0xFF || th) { forms.push_back("\\x{" + low + "}"); forms.push_back("\\x{0" + s + "}"); forms.push_back("[\\x{" + s + "}]"); forms.push_back("[\\x{" + s + "}-\\x{" + s + "}]"); }
			if (c < 256) { std::string two = (s.size() < 2 ? "0" : "") + s; forms.push_back("\\x" + two); forms.push_back("[\\x" + two + "]"); }
			if ((c & 0xFF) == 0x41 || (c & 0xFF) == 0xBF) for (int z = 2; z <= 24; ++z) forms.push_back("\\x{" + std::string(z, '0') + (z % 2 ? s : low) + "}");
			std::set<std::string> want{enc8(c)};
			for (auto& p : forms) {
				std::set<std::string> got;
				std::string err;
				if (!words(u32(p), utf, got, err)) mc::violation("/" + p + "/: " + err);
				else if (got != want) mc::violation("/" + p + "/ matches " + showSet(got));
				else ++mc::ctx().st.nontrivial;
			}
		}
	});
	{
		std::vector<std::string> ps;
		for (int a = 0; a < 256; a += th ? 1 : 5) { char b[40]; snprintf(b, sizeof b, "\\x%02x", a); for (auto x : {"%b", "%1", "(%)*", "[^%]", "a%{2}", "%|b", "[%-\\x{2ff}]"}) { std::string s; for (const char* q = x; *q; ++q) if (*q == '%') s += b; else s += *q; ps.push_back(s); } }
		mc::phase("hexadecimal in context", ps.size() * 4, [&](uint64_t i) { return "/" + ps[i / 4] + "/" + tag(flags(i % 4)); }, [&](uint64_t i) { full(u32(ps[i / 4]), flags(i % 4)); });
	}
	{
		// ranges between boundary characters
		std::vector<C32> b = {0, 1, 9, 0x20, '!', '+', '-', '/', '0', '9', ':', '@', 'A', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'f', 'z', '{', '~', 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x400, 0x401, 0x410, 0x42F, 0x430, 0x44F, 0x451, 0x7BF, 0x7C0, 0x7FF, 0x800, 0x801, 0x83F, 0x840, 0xFFF, 0x1000};
		std::vector<std::pair<C32, C32>> pr;
		for (C32 x : b) for (C32 y : b) if (x <= y + 2 && (y - x < 0x500 || th || x > y)) pr.push_back({x, y});
		for (auto p : {std::make_pair(0u, 0x7FFu), {0x7F0u, 0x900u}, {0xD700u, 0xD7FFu}, {0xE000u, 0xE0FFu}, {0xFF00u, 0x100FFu}, {0xFFFFu, 0x10001u}, {0x10FF00u, 0x10FFFFu}, {0xFFC0u, 0x1003Fu}, {0x3FFC0u, 0x40040u}, {0xFFF80u, 0x100080u}}) pr.push_back(p);
		auto mem = [&](C32 c, int how) -> U32 { if (how) return u32("\\x{" + hexs(c) + "}"); if (c < 0x80 && c && strchr("^[]-\\", (int)c)) return U32{'\\', c}; return U32{c}; };
		auto get = [&](uint64_t i) {
			int how = i % 8; auto p = pr[i / 8];
			U32 r = u32(how & 1 ? "[^" : "[");
			r = cat(r, mem(p.first, how & 2), u32("-"));
			r = cat(r, mem(p.second, how & 2), u32("]"));
			return r;
		};
		auto fl = [&](uint64_t i) { Opts o; o.utf8 = i & 4; return o; };
		mc::phase("ranges", pr.size() * 8, [&](uint64_t i) { return show(get(i)) + tag(fl(i)); }, [&](uint64_t i) { full(get(i), fl(i)); });
	}
	// ---- case folding: every character, as itself, in brackets and escaped
	mc::phase("case of every character", 0x1100, [&](uint64_t i) { return "icase U+" + hexs(i << 8) + "..FF"; }, [&](uint64_t i) {
		Opts o; o.utf8 = o.icase = true;
		for (C32 c = i << 8; c < ((i + 1) << 8); ++c) {
			if (!isScalar(c)) continue;
			std::vector<U32> forms;
			if (!(c < 0x80 && c && strchr("|().*+?^$\\[{", (int)c))) forms.push_back(U32{c});
			else forms.push_back(U32{'\\', c});
			if (c < 0x3000 || th) forms.push_back(u32("\\x{" + hexs(c) + "}"));
			if ((c < 0x3000 || th) && !(c < 0x80 && strchr("^[]-\\", (int)c))) forms.push_back(U32{'[', c, ']'});
			std::set<std::string> must{enc8(c)}, may{enc8(c)};
			auto it = cases.find(c);
			if (it != cases.end()) {
				for (C32 v : {it->second.up, it->second.lo}) { may.insert(enc8(v)); if (it->second.known) must.insert(enc8(v)); }
				// the title case form of a digraph counts as a counterpart
				for (auto t : {0x1C5u, 0x1C8u, 0x1CBu, 0x1F2u}) if (c + 1 == t || c == t || c == t + 1) for (C32 v : {t - 1, t, t + 1}) may.insert(enc8(v));
			}
			for (auto& p : forms) {
				std::set<std::string> got;
				std::string err;
				if (!words(p, o, got, err)) { mc::violation(show(p) + " icase: " + err); continue; }
				if (!std::includes(got.begin(), got.end(), must.begin(), must.end()) || !std::includes(may.begin(), may.end(), got.begin(), got.end()))
					mc::violation(show(p) + " icase matches " + showSet(got) + "instead of " + showSet(must));
				else if (must.size() > 1) ++mc::ctx().st.nontrivial;
			}
		}
	});
	{
		std::vector<std::string> ps = {"[a-c]", "[A-C]", "[^a-c]", "[X-c]", "[а-яё]", "[А-Я]", "[^ж]", "[à-þ]", "[α-ω]", "[^Α-Ω]", "[a-cР-Т1]", "ß", "ÿ", "Ÿ", "[ÿ-ā]", "\\x41", "\\x{436}", "[\\x41-\\x43]", "aB", "a|B", "(aЖ)*", "[aA]", "[^aA]", "\\W", "[\\Wa]", "[\\DЖ]", "\\l", "\\c", "[^\\c]", "ǆ", "[k-l]", "a{2}B", "[@-`]", "[Z-a]", "[`-{]", "Ā", "ԥ?", "[Ѐ-Џ]", "[ѐ-џ]", "ὰ", "[ἀ-ἇ]"};
		mc::phase("case of sets", ps.size() * 16, [&](uint64_t i) { return "/" + ps[i / 16] + "/" + tag(flags(i % 16)); }, [&](uint64_t i) {
			for (C32 c : u32(ps[i / 16])) { auto it = cases.find(c); if (it != cases.end() && !it->second.known) return; }
			full(u32(ps[i / 16]), flags(i % 16));
		});
	}
	// ---- glyph folding: every character of the first planes
	mc::phase("glyphs of every character", 0x300, [&](uint64_t i) { return "glyphs U+" + hexs(i << 8) + "..FF"; }, [&](uint64_t i) {
		for (C32 c = i << 8; c < ((i + 1) << 8); ++c) {
			if (!isScalar(c)) continue;
			for (int ic = 0; ic < 2; ++ic) {
				if (ic && c > 0x600) continue;
				Opts o; o.utf8 = o.glyphs = true; o.icase = ic;
				Set s; if (ic) caseVariants(c, s); s.insert(c);
				Set g = s;
				for (auto& k : glyphClasses()) for (C32 x : s) if (k.count(x)) g.insert(k.begin(), k.end());
				std::set<std::string> want, got;
				for (C32 x : g) want.insert(enc8(x));
				bool loose = false;
				for (C32 x : g) { auto it = cases.find(x); if (ic && it != cases.end() && !it->second.known) loose = true; }
				if (loose) continue;
				U32 p{c};
				if (c < 0x80 && c && strchr("|().*+?^$\\[{", (int)c)) p = {'\\', c};
				std::string err;
				if (!words(p, o, got, err)) mc::violation(show(p) + " glyphs: " + err);
				else if (got != want) mc::violation(show(p) + tag(o) + " matches " + showSet(got));
				else if (want.size() > 1) ++mc::ctx().st.nontrivial;
			}
		}
	});
	{
		// small patterns under every combination of features: a feature has no influence beyond what it folds
		std::vector<std::string> tok = {"a", "K", "1", "я", "Т", "[a-c]", "[^A]", "\\d", "\\W", ".", "|", "*", "&", "(", ")", "~"};
		Seqs s(tok, th ? 4 : 3);
		mc::phase("combined features", s.total * 16, [&](uint64_t i) { return show(s.get(i / 16)) + tag(flags(i % 16)); }, [&](uint64_t i) { full(s.get(i / 16), flags(i % 16)); });
	}
	return mc::finish();
}
