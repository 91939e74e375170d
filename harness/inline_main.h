// Included by the source files that the P22 harness writes and pushes through the build-time pattern compiler.
#pragma once
#include <pire/pire.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <cstdio>
#include <vector>

#define S(x) std::string(x, sizeof(x) - 1)

/// What the pattern list means at run time.
inline Pire::Scanner runtime(const std::vector<std::string>& a) {
	Pire::Scanner sc;
	for (size_t i = 0; i < a.size(); i += 2) {
		const std::string& p = a[i], & o = a[i + 1];
		auto has = [&](char c) { return o.find(c) != std::string::npos; };
		Pire::Lexer lx;
		if (has('u')) lx.SetEncoding(Pire::Encodings::Utf8());
		if (has('i')) lx.AddFeature(Pire::Features::CaseInsensitive());
		if (has('a')) lx.AddFeature(Pire::Features::AndNotSupport());
		std::vector<Pire::wchar32> u;
		lx.Encoding().FromLocal(p.data(), p.data() + p.size(), std::back_inserter(u));
		lx.Assign(u.begin(), u.end());
		Pire::Fsm f = lx.Parse();
		if (has('r')) f.Reverse();
		if (has('g')) f = ~f.Surrounded() + f;
		if (has('s')) f.Surround();
		Pire::Scanner one(f);
		sc = i ? Pire::Scanner::Glue(sc, one) : one;
	}
	return sc;
}

static size_t bads = 0, states = 0, checked = 0;
inline void bad(size_t id, const std::string& s) { ++bads; printf("BAD %zu %s\n", id, s.c_str()); }

inline void add(size_t id, int line, int realLine, const std::vector<std::string>& a, const Pire::Scanner& x) {
	++checked;
	if (line != realLine) bad(id, "source line " + std::to_string(realLine) + " calls itself line " + std::to_string(line));
	Pire::Scanner y = runtime(a);
	if (x.RegexpsCount() != y.RegexpsCount()) return bad(id, "number of patterns differs");
	typedef Pire::Scanner::State St;
	std::set<std::pair<size_t, size_t>> seen;
	std::deque<std::pair<std::pair<St, St>, std::string>> q;
	St s, t;
	x.Initialize(s); y.Initialize(t);
	q.push_back({{s, t}, ""});
	seen.insert({x.StateIndex(s), y.StateIndex(t)});
	while (!q.empty()) {
		auto p = q.front(); q.pop_front();
		++states;
		auto l = x.AcceptedRegexps(p.first.first), m = y.AcceptedRegexps(p.first.second);
		if (x.Final(p.first.first) != y.Final(p.first.second) || std::vector<size_t>(l.first, l.second) != std::vector<size_t>(m.first, m.second))
			return bad(id, "differs from the pattern compiled at run time on the text '" + p.second + "'");
		for (int c = 0; c < 260; ++c) {
			if (c == 256 || c == 257) continue;
			St s2 = p.first.first, t2 = p.first.second;
			Pire::Step(x, s2, c); Pire::Step(y, t2, c);
			if (seen.insert({x.StateIndex(s2), y.StateIndex(t2)}).second) {
				char b[8];
				if (c == 258) strcpy(b, "<BM>"); else if (c == 259) strcpy(b, "<EM>");
				else if (c > 32 && c < 127) { b[0] = c; b[1] = 0; } else snprintf(b, sizeof b, "\\x%02x", c);
				q.push_back({{s2, t2}, p.second + b});
			}
		}
	}
}
inline int done(size_t expected) { printf("DONE %zu %zu\n", checked, states); return checked == expected && !bads ? 0 : 1; }
