// Shared by the pattern-language harnesses: pire's parser under given options, enumeration of token sequences,
// and the exhaustive comparison of a parsed pattern with its reference denotation.
#pragma once
#include "product.h"
#include "refre.h"
#include <pire/extra.h>

namespace refre {

inline void setup(Pire::Lexer& lx, const Opts& o) {
	if (o.utf8) lx.SetEncoding(Pire::Encodings::Utf8());
	if (o.icase) lx.AddFeature(Pire::Features::CaseInsensitive());
	if (o.andnot) lx.AddFeature(Pire::Features::AndNotSupport());
	if (o.glyphs) lx.AddFeature(Pire::Features::GlueSimilarGlyphs());
}
inline Pire::Fsm parsePire(const U32& p, const Opts& o) {
	Pire::Lexer lx(p.begin(), p.end());
	setup(lx, o);
	return lx.Parse();
}
inline std::string tag(const Opts& o) {
	return std::string(o.utf8 ? " utf8" : "") + (o.andnot ? " and-not" : "") + (o.icase ? " icase" : "") + (o.glyphs ? " glyphs" : "");
}

/// Compares an automaton with the denotation of a tree on every text of the encoding.
inline std::string checkLang(Pire::Fsm f, const P& tree, const Opts& o) {
	Denote den(o, {tree});
	ref::L l = den.eval(tree);
	ref::L dom = den.texts();
	mc::ProdOpts po; po.domain = dom.get(); po.marks = 1;
	Pire::Scanner sc = f.Compile<Pire::Scanner>();
	return mc::compare(sc, *l, den.lang->al, po);
}

/// i-th sequence over tokens, all lengths 0..len
struct Seqs {
	std::vector<U32> tok; uint64_t total = 0; std::vector<uint64_t> upto;
	Seqs(const std::vector<std::string>& t, int len) {
		for (auto& s : t) tok.push_back(u32(s));
		uint64_t c = 1;
		for (int l = 0; l <= len; ++l) { total += c; upto.push_back(total); c *= tok.size(); }
	}
	U32 get(uint64_t i) const {
		int l = 0;
		while (i >= upto[l]) ++l;
		if (l) i -= upto[l - 1];
		U32 r;
		std::vector<int> d(l);
		for (int k = l - 1; k >= 0; --k) { d[k] = i % tok.size(); i /= tok.size(); }
		for (int k : d) r.insert(r.end(), tok[k].begin(), tok[k].end());
		return r;
	}
};

inline U32 cat(const U32& a, const U32& b) { U32 r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline U32 cat(const U32& a, const U32& b, const U32& c) { return cat(cat(a, b), c); }

} // namespace refre
