// P22: patterns compiled at build time behave as the same patterns compiled at run time.
//
// Source files written out of enumerated pattern literals, flag sets, lists and layouts are pushed through the
// build-time compiler, compiled by the C++ compiler and run: each embedded scanner is compared with the same
// literals (as the C++ compiler reads them) compiled at run time, by exhausting the product.  Source fragments
// around a pattern must come out as they were; bad input must be refused.
#include "mc.h"
#include <pire.h>
#include <functional>
#include <set>

struct Tok { std::string src, bytes; };
struct Entry { std::vector<std::string> args; std::string call; std::string what; };   // args: source literals; call: the macro's text

static std::string slurp(const std::string& f) { std::string s; if (FILE* h = fopen(f.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); } return s; }
static void spit(const std::string& f, const std::string& s) { FILE* h = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), h); fclose(h); }
static std::string env(const char* n) { const char* v = getenv(n); if (!v) { fprintf(stderr, "%s is not set\n", n); exit(3); } return v; }

struct Dir {
	std::string d;
	Dir() { char b[] = "/tmp/p22.XXXXXX"; d = mkdtemp(b); }
	~Dir() { for (const char* n : {"i.cpp", "o.cpp", "exe", "log", "out", "err"}) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); }
	/// exit status, -1 if killed
	int run(const std::string& c) { int r = system(("cd " + d + " && ulimit -f 100000 && timeout 40 " + c).c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : -1; }
	int tool() {
		static int hangs = 0;
		if (hangs >= 2) return 124;      // enough has been seen
		int r = run("timeout 5 " + env("PIRE_INLINE") + " -o o.cpp i.cpp >out 2>err");
		hangs += r == 124;
		return r;
	}
};

static void batch(const std::vector<Entry>& es) {
	Dir d;
	std::string s = "#include \"inline_main.h\"\n\nvoid f() {\n";
	int line = 4;
	for (size_t i = 0; i < es.size(); ++i) {
		std::string a;
		for (auto& x : es[i].args) a += (a.empty() ? "S(" : ", S(") + x + ")";
		std::string head = "add(" + std::to_string(i) + ", __LINE__, " + std::to_string(line) + ", {" + a + "}, ", t = head + es[i].call + ");\n";
		s += t;
		for (char c : t) line += c == '\n';
	}
	s += "}\nint main() { f(); return done(" + std::to_string(es.size()) + "); }\n";
	spit(d.d + "/i.cpp", s);
	if (d.tool()) { mc::violation("the tool refuses valid patterns: " + slurp(d.d + "/err").substr(0, 300)); return; }
	if (d.run("g++ " + env("PIRE_CXX_ARGS") + " -w -g0 -O0 o.cpp " + env("PIRE_LIB") + " -o exe >log 2>&1")) {
		std::string l = slurp(d.d + "/log"), e;
		size_t p = l.find("error");
		mc::violation("what the tool wrote does not compile: " + (p == std::string::npos ? l.substr(0, 200) : l.substr(p > 60 ? p - 60 : 0, 300)));
		return;
	}
	int rc = d.run("./exe >out 2>err");
	std::string o = slurp(d.d + "/out");
	bool reported = false;
	for (size_t p = 0; p < o.size();) {
		size_t e = o.find('\n', p);
		std::string l = o.substr(p, e - p);
		p = e + 1;
		size_t id, n, st; char rest[600] = "";
		if (sscanf(l.c_str(), "BAD %zu %599[^\n]", &id, rest) >= 1 && id < es.size()) { mc::violation(es[id].what + ": " + rest); reported = true; }
		if (sscanf(l.c_str(), "DONE %zu %zu", &n, &st) == 2) { mc::ctx().st.states += st; mc::ctx().st.transitions += st * 258; mc::ctx().st.nontrivial += n; if (n != es.size()) { mc::violation("patterns vanished"); reported = true; } }
	}
	if (rc && !reported) mc::violation("the program with the embedded patterns fails: " + slurp(d.d + "/err").substr(0, 300));
}

static void batches(const char* name, const std::vector<Entry>& es, size_t per) {
	mc::phase(name, (es.size() + per - 1) / per, [&](uint64_t i) { return std::to_string(i) + ", from " + es[i * per].what; }, [&](uint64_t i) {
		batch(std::vector<Entry>(es.begin() + i * per, es.begin() + std::min(es.size(), (i + 1) * per)));
	});
}

/// Is the pattern valid with these flags?
static bool valid(const std::string& p, const std::string& o) {
	auto has = [&](char c) { return o.find(c) != std::string::npos; };
	if (has('g') && has('s')) return false;
	try {
		Pire::Lexer lx;
		if (has('u')) lx.SetEncoding(Pire::Encodings::Utf8());
		if (has('i')) lx.AddFeature(Pire::Features::CaseInsensitive());
		if (has('a')) lx.AddFeature(Pire::Features::AndNotSupport());
		Pire::TVector<Pire::wchar32> u;
		lx.Encoding().FromLocal(p.data(), p.data() + p.size(), std::back_inserter(u));
		lx.Assign(u.begin(), u.end());
		lx.Parse();
		return true;
	} catch (const Pire::Error&) { return false; }
}
static std::string q(const std::string& s) { return "\"" + s + "\""; }

static Entry entry(const std::vector<std::string>& args) {
	Entry e; e.args = args; e.call = "PIRE_REGEXP(";
	for (size_t i = 0; i < args.size(); ++i) e.call += (i ? ", " : "") + args[i];
	e.call += ")"; e.what = e.call;
	return e;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool th = mc::ctx().thorough;
	std::vector<Tok> toks = {{"g", "g"}, {"1", "1"}, {"z*", "z*"}, {"\\\\", "\\"}, {"\\\\.", "\\."}, {"\\\"", "\""}, {"\\'", "'"}, {"'", "'"}, {"\\n", "\n"}, {"\\t", "\t"}, {"\\x41", "A"}, {"\\x6a", "j"}, {"\\x6F", "o"}, {"\\x4B", "K"}, {"\\x61", "a"}, {"\\101", "A"}, {"\\60", "0"}, {"\\7", "\7"}, {"\\x7a\" \"", "z"}, {"\\0", std::string(1, 0)}, {"/*", "/*"}, {"//", "//"}, {",", ","}, {")", ")"}, {"(", "("}, {"|", "|"}, {".", "."}, {"[^g]", "[^g]"}, {"я", "я"}, {"\\xd1\\x8f", "я"}, {"\\321\\217", "я"}, {"%s", "%s"}, {"??/", "?" "?/"}, {"\" \"", ""}, {"PIRE_REGEXP(", "PIRE_REGEXP("}};
	std::vector<std::string> flags = {"", "i", "u", "s", "a", "g", "r", "ui"};
	auto seq = [&](int len, const std::vector<std::string>& fl, std::vector<Entry>& good, std::vector<Entry>& bad) {
		std::vector<int> x(len);
		for (;;) {
			std::string s, b;
			bool ok = true;
			for (int k = 0; k < len; ++k) {
				const std::string& t = toks[x[k]].src;
				// an escape sequence must not be continued by the next token
				if (k && !toks[x[k - 1]].src.empty()) {
					const std::string& p = toks[x[k - 1]].src;
					if ((p == "\\60" || p == "\\7" || p == "\\0") && isdigit((unsigned char)t[0])) ok = false;
					if (p.compare(0, 2, "\\x") == 0 && p.back() != '"' && isxdigit((unsigned char)t[0])) ok = false;
				}
				s += t; b += toks[x[k]].bytes;
			}
			if (ok) for (auto& f : fl) (valid(b, f) ? good : bad).push_back(entry({q(s), q(f)}));
			int k = len - 1;
			while (k >= 0 && ++x[k] == (int)toks.size()) x[k--] = 0;
			if (k < 0) break;
		}
	};
	std::vector<Entry> good, bad;
	seq(0, flags, good, bad); seq(1, flags, good, bad); seq(2, flags, good, bad);
	if (th) seq(3, {"", "uis"}, good, bad);
	batches("literals", good, 250);

	// all flag sets in two orders
	std::vector<Entry> fl;
	for (auto& p : std::vector<std::string>{"a(b|cc)", "^ab*$", "a&~b", "[^Я]я+", "", "ab$|^c"}) for (int m = 0; m < 64; ++m) for (int rev = 0; rev < 2; ++rev) {
		std::string f;
		for (int k = 0; k < 6; ++k) if (m >> (rev ? 5 - k : k) & 1) f += "iusagr"[rev ? 5 - k : k];
		if (valid(p, f)) fl.push_back(entry({q(p), q(f)})); else bad.push_back(entry({q(p), q(f)}));
		if (!rev && (m & (m - 1)) == 0 && m && valid(p, f + f)) fl.push_back(entry({q(p), q(f + f)}));
	}
	batches("flags", fl, 250);

	// lists
	{
		std::vector<std::pair<std::string, std::string>> pool = {{"foo", ""}, {"FO+", "i"}, {".я", "u"}, {"o", "s"}, {"f.*&~foo", "a"}, {"o", "g"}, {"^of$", "r"}, {"", ""}};
		std::vector<Entry> es;
		size_t n = pool.size();
		for (size_t i = 0; i < n * n; ++i) es.push_back(entry({q(pool[i / n].first), q(pool[i / n].second), q(pool[i % n].first), q(pool[i % n].second)}));
		for (size_t i = 0; i < n * n * n; ++i) es.push_back(entry({q(pool[i / n / n].first), q(pool[i / n / n].second), q(pool[i / n % n].first), q(pool[i / n % n].second), q(pool[i % n].first), q(pool[i % n].second)}));
		for (int len = 4; len <= 9; ++len) for (size_t r = 0; r < n; ++r) {
			std::vector<std::string> a;
			for (int k = 0; k < len; ++k) { a.push_back(q(pool[(r + k) % n].first)); a.push_back(q(pool[(r + k) % n].second)); }
			es.push_back(entry(a));
		}
		batches("lists", es, 150);
	}

	// layout
	{
		std::vector<std::string> lay = {"", " ", "\t", "\n", "/* x */", "/* a*b\n*c**/", "// c \"\n", "/***/", "\n\n", "/**/", "\r\n", "/* \" */"};
		std::vector<Entry> es;
		int places = 7;
		for (int p = 0; p < places; ++p) for (int r = p; r < places; ++r) for (size_t x = 0; x < lay.size(); ++x) for (size_t y = 0; y < lay.size(); ++y) {
			if (p == r && y) continue;
			std::vector<std::string> l(places);
			l[p] = lay[x]; if (r != p) l[r] = lay[y];
			if (l[0].find_first_not_of(" \t") != std::string::npos) continue;       // between the name and the parenthesis
			Entry e; e.args = {"\"ab\"", "\"s\""};
			e.call = "PIRE_REGEXP" + l[0] + "(" + l[1] + "\"a\"" + l[2] + "\"b\"" + l[3] + "," + l[4] + "\"s\"" + l[5] + ")" + l[6];
			e.what = mc::show(e.call);
			es.push_back(e);
		}
		batches("layout", es, 400);
	}

	// what surrounds a pattern
	{
		std::vector<std::string> frag = {"\"s\"", "\"a\\\"b\"", "\"\\\\\"", "'\"'", "'\\''", "'\\\\'", "/* a*b */", "/* \n**/", "/***/", "// x\n", "// \"\n", "\n", "\\\n", " x ", "/", "*", "\"/*\"", "\"//\"", "'/*'", "PIRE_REGEX(\"a\")", "\"PIRE_REGEXP(\\\"a\\\", \\\"\\\")\"", "/* PIRE_REGEXP(\"a\", \"\") */", "// PIRE_REGEXP(\"a\", \"\")\n", "\"я\"", "#define x(y) \"z\" \\\n", "\xff"};
		uint64_t n = frag.size(), total = th ? n * n * n : n * n;
		auto get = [=](uint64_t i) { std::vector<std::string> v; for (uint64_t k = 1; k < total; k *= n) { v.push_back(frag[i % n]); i /= n; } return v; };
		mc::phase("surroundings", total, [&](uint64_t i) { std::string s; for (auto& f : get(i)) s += f + "@"; return mc::show(s); }, [&](uint64_t i) {
			auto v = get(i);
			// fragments with a pattern behind each of them
			std::string src = "@0<";
			std::vector<std::string> keep;
			for (size_t k = 0; k < v.size(); ++k) {
				std::string id = std::to_string(k);
				keep.push_back("@" + id + "<" + v[k] + ">" + id + "@");
				src += (k ? "@" + id + "<" : "") + v[k] + ">" + id + "@ PIRE_REGEXP(\"a\", \"\") ";
			}
			Dir d;
			spit(d.d + "/i.cpp", src);
			if (d.tool()) { mc::violation("refused: " + slurp(d.d + "/err").substr(0, 200)); return; }
			std::string o = slurp(d.d + "/o.cpp");
			if (o.compare(0, 5, "#line") == 0) o.erase(0, o.find('\n') + 1);
			++mc::ctx().st.states; ++mc::ctx().st.nontrivial;
			size_t p = 0;
			for (size_t k = 0; k < keep.size(); ++k) {
				size_t f = o.find(keep[k], p);
				if (f == std::string::npos || (k == 0 && f)) { mc::violation("fragment " + std::to_string(k) + " is changed: " + mc::show(o.substr(p, 150))); return; }
				p = f + keep[k].size();
				size_t e = k + 1 < keep.size() ? o.find("@" + std::to_string(k + 1) + "<", p) : o.size();
				if (e == std::string::npos) { mc::violation("fragment " + std::to_string(k + 1) + " is lost"); return; }
				if (o.substr(p, e - p).find("PIRE_REGEXP") != std::string::npos) { mc::violation("the pattern behind fragment " + std::to_string(k) + " is not compiled"); return; }
			}
		});
	}

	// bad input
	{
		std::vector<std::string> badsrc;
		for (auto& e : bad) badsrc.push_back("x = " + e.call + ";\n");
		for (auto& s : std::vector<std::string>{"PIRE_REGEXP()", "PIRE_REGEXP(\"a\")", "PIRE_REGEXP(\"a\", \"\", \"b\")", "PIRE_REGEXP(\"a\", \"x\")", "PIRE_REGEXP(\"a\", \"sg\")", "PIRE_REGEXP(\"a\", \"gs\")", "PIRE_REGEXP(\"a\", \"i u\")", "PIRE_REGEXP(\"a\", \"s\",)", "PIRE_REGEXP(\"\\q\", \"\")", "PIRE_REGEXP(\"\\x\", \"\")", "PIRE_REGEXP(\"\\8\", \"\")", "PIRE_REGEXP(x, \"\")", "PIRE_REGEXP(\"a\", s)", "PIRE_REGEXP(\"a\" + \"b\", \"s\")", "PIRE_REGEXP(\"a\", \"s\"", "PIRE_REGEXP(\"a\", \"s", "PIRE_REGEXP(\"a\", /* ", "PIRE_REGEXP(\"a\", // \"s\")", "/* ", "PIRE_REGEXP(\"a\", \"s\") /*", "PIRE_REGEXP((\"a\"), \"s\")", "PIRE_REGEXP(\"a\", 0)", "PIRE_REGEXP(R\"(a)\", \"\")", "PIRE_REGEXP(\"a\"; \"\")",
			"PIRE_REGEXP(\"a[ab]{16}b\", \"s\", \"b[ab]{16}a\", \"s\")"}) badsrc.push_back(s);
		for (auto& a : std::vector<std::string>{"(", ")", "*", "a{2,1}", "[b-a]", "[", "a)b", "(a", "a**(", "\\\\", "{2}", "a{2"}) for (const char* f : {"", "i", "u", "s"}) for (int at = 0; at < 3; ++at) {
			std::string p = a == "\\\\" ? "\\" : a;
			if (valid(p, f)) continue;
			std::string s = "PIRE_REGEXP(";
			for (int k = 0; k < 3; ++k) s += (k ? ", " : "") + q(k == at ? a : "ok") + ", " + q(k == at ? f : "");
			badsrc.push_back(s + ")");
		}
		// many bad literals fail in the same way: a tenth of a second each would be too much
		size_t per = 16;
		mc::phase("bad input", (badsrc.size() + per - 1) / per, [&](uint64_t i) { return "from " + mc::show(badsrc[i * per]); }, [&](uint64_t i) {
			for (size_t k = i * per; k < std::min(badsrc.size(), (i + 1) * per); ++k) {
				Dir d;
				spit(d.d + "/i.cpp", badsrc[k]);
				int rc = d.tool();
				++mc::ctx().st.states; ++mc::ctx().st.nontrivial;
				if (rc == 0) mc::violation("accepted without a word: " + mc::show(badsrc[k]));
				else if (rc == -1 || rc >= 120) mc::violation("the tool crashes or does not come to an end: " + mc::show(badsrc[k]));
				else if (slurp(d.d + "/err").empty()) mc::violation("refused without a message: " + mc::show(badsrc[k]));
			}
		});
	}
	return mc::finish();
}
