// P13: saved scanners reload or map back into scanners that behave identically.
//
// Every scanner of the pools of all 15 kinds into every earlier content of the target, by stream and by mapping;
// every sequence of up to three images of any kinds in one stream and one block; every chain of value operations,
// reloads and mappings up to a length; all small construction programs in every kind.
#include "box.h"
#include "fsmexpr.h"
using namespace box;

unsigned char box::fillByte = 0;
bool box::fullPrint = true;
static std::vector<Kind> K;

static std::string hex(const std::string& a, const std::string& b) {
	if (a.size() != b.size()) return std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes";
	for (size_t i = 0; i < a.size(); ++i)
		if (a[i] != b[i]) return "byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " is " + std::to_string((unsigned char)a[i]) + " and " + std::to_string((unsigned char)b[i]);
	return "same";
}
static void same(const Obj& o, const Made& m, const std::string& what) {
	if (o.behave() != m.behave) { mc::violation(what + ": behaves differently"); return; }
	std::string i = o.image();
	if (i != m.image) mc::violation(what + ": saved again it differs from what was saved first (" + hex(m.image, i) + ")");
	++mc::ctx().st.replays;
}
static std::string pad(size_t n) { return std::string(n, (char)0xA7); }

static void load(Obj& o, const std::string& img, const std::string& before, const std::string& after, const std::string& what) {
	std::istringstream in(before + img + after);
	in.seekg(before.size());
	o.load(in);
	if (!in) { mc::violation(what + ": the stream is bad after loading"); return; }
	size_t pos = (size_t)in.tellg() - before.size();
	if (pos != img.size()) mc::violation(what + ": loading consumed " + std::to_string(pos) + " bytes of an image of " + std::to_string(img.size()));
}
static void map(Obj& o, BlockP b, size_t off, size_t img, const std::string& what) {
	o.keep.push_back(b);
	const char* r = (const char*)o.map(b->p + off, b->n - off);
	if (r != b->p + off + img) mc::violation(what + ": mapping reports " + std::to_string(r - (b->p + off)) + " bytes of an image of " + std::to_string(img));
}

/// one scanner into one target, by every way in
static void single(const Kind& k, const Made& m, const Made* target) {
	auto fresh = [&] { return target ? target->obj->copy() : k.proto->fresh(); };
	for (int v = 0; v < 4; ++v) {
		ObjP o = fresh();
		std::string what = "loaded (variant " + std::to_string(v) + ")";
		load(*o, m.image, pad(v == 1 ? 8 : v == 2 ? 3 : 0), pad(v == 3 ? 100 : v == 2 ? 1 : 0), what);
		same(*o, m, what);
		// the source may go away, a second load replaces the first
		if (target) { load(*o, target->image, "", "", what); same(*o, *target, what + ", then replaced"); }
	}
	if (k.canMap)
		for (int v = 0; v < 3; ++v) {
			ObjP o = fresh();
			std::string what = "mapped (variant " + std::to_string(v) + ")";
			BlockP b = std::make_shared<Block>(m.image + pad(v == 1 ? 1000 : v == 2 ? 4 : 0));
			map(*o, b, 0, m.image.size(), what);
			same(*o, m, what);
			ObjP c = o->copy();
			same(*c, m, what + " and copied");
			if (target) { load(*o, target->image, "", "", what); same(*o, *target, what + ", then loaded over"); same(*c, m, what + ", copy of it"); }
		}
	if (m.obj->image() != m.image) mc::violation("saving twice gives different bytes");
	++mc::ctx().st.nontrivial;
}

// ---- chains -----------------------------------------------------------------------------------------------------
enum { OPS = 9 };
static const char* opn[OPS] = {"load", "mmap", "copy", "move", "assign", "self-assign", "swap", "convert", "load over"};
static ObjP apply(int op, const Kind& k, const Made& m, const Made& other, ObjP o) {
	switch (op) {
		case 0: { ObjP r = k.proto->fresh(); load(*r, o->image(), "", "", "chain"); return r; }
		case 1: { if (!k.canMap) return nullptr; ObjP r = k.proto->fresh(); auto img = o->image(); map(*r, std::make_shared<Block>(img), 0, img.size(), "chain"); return r; }
		case 2: return o->copy();
		case 3: return o->move();
		case 4: { ObjP r = other.obj->copy(); r->assign(*o); return r; }
		case 5: o->assign(*o); return o;
		case 6: { ObjP r = other.obj->copy(); r->swap(*o); same(*o, other, "other side of a swap"); return r; }
		case 7: return o->convert();
		default: { auto img = o->image(); load(*o, img, "", "", "chain"); return o; }
	}
}

// ---- all small programs -----------------------------------------------------------------------------------------
template<class Sc> void oneKind(const Sc& sc, const std::string& kind) {
	std::string img = kinds::image(sc), beh = print(sc);
	Sc l;
	std::istringstream in(img);
	l.Load(&in);
	if ((size_t)in.tellg() != img.size()) mc::violation(kind + ": loading consumed another number of bytes");
	if (print(l) != beh) mc::violation(kind + ": loaded, behaves differently");
	if (kinds::image(l) != img) mc::violation(kind + ": loaded and saved again differs");
	if (Mapper<Sc>::can) {
		Block b(img);
		Sc m;
		if ((const char*)Mapper<Sc>::map(m, b.p, b.n) != b.p + img.size()) mc::violation(kind + ": mapping reports another number of bytes");
		if (print(m) != beh) mc::violation(kind + ": mapped, behaves differently");
		if (kinds::image(m) != img) mc::violation(kind + ": mapped and saved again differs");
	}
	++mc::ctx().st.replays;
}
static void program(const Fsm& f) {
	oneKind(compile<Scanner>(f), "Scanner");
	oneKind(compile<NonrelocScanner>(f), "NonrelocScanner");
	oneKind(compile<ScannerNoMask>(f), "ScannerNoMask");
	oneKind(compile<NonrelocScannerNoMask>(f), "NonrelocScannerNoMask");
	oneKind(compile<SimpleScanner>(f), "SimpleScanner");
	oneKind(compile<SlowScanner>(f), "SlowScanner");
	oneKind(HalfFinalScanner(f), "HalfFinalScanner");
	oneKind(NonrelocHalfFinalScanner(f), "NonrelocHalfFinalScanner");
	for (auto sep : {".*", "b", ""}) {
		oneKind(CountingScanner(f, fsm(sep)), std::string("CountingScanner sep ") + sep);
		oneKind(AdvancedCountingScanner(f, fsm(sep)), std::string("AdvancedCountingScanner sep ") + sep);
		oneKind(NoGlueLimitCountingScanner(f, fsm(sep)), std::string("NoGlueLimitCountingScanner sep ") + sep);
	}
	++mc::ctx().st.nontrivial;
}

/// An image of the preceding format version: an action table before the tags, which is ignored
static std::string older(const std::string& img) {
	uint32_t w[4];
	memcpy(w, img.data() + 24, 12);           // statesCount, lettersCount, regexpsCount
	std::string r = img;
	r[4] = 6;
	size_t at = 24 + 24 + ((Pire::MaxChar + 7) / 8 * 8) + 8 * (size_t)w[0] * w[1];
	r.insert(at, ((size_t)w[0] * w[1] * 4 + 7) / 8 * 8, (char)0x5B);
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool deep = mc::ctx().thorough;
	K = box::all();

	struct S { int k, m, t; };
	std::vector<S> s;
	for (size_t k = 0; k < K.size(); ++k)
		for (size_t m = 0; m < K[k].pool.size(); ++m)
			for (int t = -1; t < (int)K[k].pool.size(); ++t) s.push_back({(int)k, (int)m, t});
	mc::phase("single", s.size(), [&](uint64_t i) {
		auto& x = s[i]; return K[x.k].name + " " + K[x.k].pool[x.m].name + " into " + (x.t < 0 ? "a new one" : K[x.k].pool[x.t].name);
	}, [&](uint64_t i) { auto& x = s[i]; single(K[x.k], K[x.k].pool[x.m], x.t < 0 ? nullptr : &K[x.k].pool[x.t]); });

	// chains: every sequence of operations
	int len = deep ? 5 : 3;
	uint64_t seqs = 1;
	for (int i = 0; i < len; ++i) seqs *= OPS;
	std::vector<std::pair<int, int>> km;
	for (size_t k = 0; k < K.size(); ++k)
		for (size_t m = 0; m < K[k].pool.size(); ++m) if (m == 0 || m == 3 || (deep && m == 1)) km.push_back({(int)k, (int)m});
	std::vector<std::tuple<int, int, int>> heads;    // kind, scanner, first operation
	for (auto& x : km) for (int op = 0; op < OPS; ++op) heads.push_back(std::make_tuple(x.first, x.second, op));
	mc::phase("chain", heads.size(), [&](uint64_t i) {
		int k, m, op; std::tie(k, m, op) = heads[i];
		return K[k].name + " " + K[k].pool[m].name + ": " + opn[op] + " and every " + std::to_string(len - 1) + " operations";
	}, [&](uint64_t i) {
		int k, m, op0; std::tie(k, m, op0) = heads[i];
		const Made &x = K[k].pool[m], &y = K[k].pool[m == 0 ? 1 : 0];
		uint64_t n = seqs / OPS;
		for (uint64_t c = 0; c < n; ++c) {
			ObjP o = x.obj->copy();
			std::string what;
			uint64_t r = c;
			for (int d = 0; d < len && o; ++d) {
				int op = d == 0 ? op0 : r % OPS;
				if (d) r /= OPS;
				what += std::string(d ? ", " : "") + opn[op];
				o = apply(op, K[k], x, y, o);
			}
			++mc::ctx().st.transitions;
			if (o) same(*o, x, what);
		}
		++mc::ctx().st.nontrivial;
	});

	// sequences in one stream or block
	std::vector<std::pair<int, int>> seqPool;
	for (size_t k = 0; k < K.size(); ++k) {
		if (!K[k].canMap) continue;
		for (size_t m = 0; m < K[k].pool.size(); ++m) if (m == 0 || m == 1 || m == 3) seqPool.push_back({(int)k, (int)m});
	}
	size_t P = seqPool.size();
	auto M = [&](int i) -> const Made& { return K[seqPool[i].first].pool[seqPool[i].second]; };
	auto KK = [&](int i) -> const Kind& { return K[seqPool[i].first]; };
	mc::phase("sequence", P * P, [&](uint64_t i) {
		return KK(i / P).name + " " + M(i / P).name + ", " + KK(i % P).name + " " + M(i % P).name + " and any third";
	}, [&](uint64_t i) {
		for (int third = -1; third < (int)P; ++third) {
			std::vector<int> w{(int)(i / P), (int)(i % P)};
			if (third >= 0) w.push_back(third);
			std::string all;
			for (int x : w) all += M(x).image;
			std::istringstream in(all);
			for (size_t d = 0; d < w.size(); ++d) {
				ObjP o = KK(w[d]).proto->fresh();
				o->load(in);
				if (!in) { mc::violation("the stream is bad after loading number " + std::to_string(d)); break; }
				if (o->image() != M(w[d]).image) { mc::violation("number " + std::to_string(d) + " of " + std::to_string(w.size()) + " loaded differs"); break; }
				if (third < 0) same(*o, M(w[d]), "loaded number " + std::to_string(d));
				++mc::ctx().st.transitions;
			}
			if ((size_t)in.tellg() != all.size()) mc::violation("the stream is not used up");
			// mapped: images whose length is no multiple of the word are brought to the next aligned address
			std::string blk;
			std::vector<size_t> offs;
			for (int x : w) { blk += pad((8 - blk.size() % 8) % 8); offs.push_back(blk.size()); blk += M(x).image; }
			BlockP b = std::make_shared<Block>(blk);
			const char* p = b->p;
			for (size_t d = 0; d < w.size(); ++d) {
				ObjP o = KK(w[d]).proto->fresh();
				o->keep.push_back(b);
				p = (const char*)(((uintptr_t)p + 7) & ~(uintptr_t)7);
				if (p != b->p + offs[d]) { mc::violation("mapping number " + std::to_string(d - 1) + " reported a wrong end"); break; }
				p = (const char*)o->map(p, b->n - (p - b->p));
				if (third < 0) same(*o, M(w[d]), "mapped number " + std::to_string(d));
				else if (o->image() != M(w[d]).image) mc::violation("number " + std::to_string(d) + " mapped differs");
				++mc::ctx().st.transitions;
			}
			if (p != b->p + b->n) mc::violation("mapping the last image reported a wrong end");
		}
		++mc::ctx().st.nontrivial;
	});

	// images of the preceding format version
	std::vector<std::pair<int, int>> old;
	for (size_t k = 0; k < K.size(); ++k)
		if (K[k].type == 4) for (size_t m = 0; m < K[k].pool.size(); ++m) old.push_back({(int)k, (int)m});
	mc::phase("older version", old.size(), [&](uint64_t i) { return K[old[i].first].name + " " + K[old[i].first].pool[old[i].second].name; },
		[&](uint64_t i) {
			const Kind& k = K[old[i].first];
			const Made& m = k.pool[old[i].second];
			std::string img = older(m.image);
			ObjP o = k.proto->fresh();
			load(*o, img, "", pad(9), "loaded");
			same(*o, m, "loaded");
			o = k.proto->fresh();
			map(*o, std::make_shared<Block>(img + pad(8)), 0, img.size(), "mapped");
			same(*o, m, "mapped");
		});

	// counting scanners saved by the older kind, loaded by the limit-free one
	const Kind* adv = nullptr; const Kind* lim = nullptr;
	for (auto& k : K) { if (k.name == "AdvancedCountingScanner") adv = &k; if (k.name == "NoGlueLimitCountingScanner") lim = &k; }
	mc::phase("advanced into limit-free", adv->pool.size() * lim->pool.size(), [&](uint64_t i) { return adv->pool[i / lim->pool.size()].name + " into " + lim->pool[i % lim->pool.size()].name; },
		[&](uint64_t i) {
			const Made& m = adv->pool[i / lim->pool.size()];
			for (int v = 0; v < 2; ++v) {
				ObjP o = lim->pool[i % lim->pool.size()].obj->copy();
				if (v) map(*o, std::make_shared<Block>(m.image), 0, m.image.size(), "mapped");
				else load(*o, m.image, "", "", "loaded");
				if (o->behave() != m.behave) mc::violation(std::string(v ? "mapped" : "loaded") + ", counts differently");
				if (o->copy()->behave() != m.behave) mc::violation(std::string(v ? "mapped" : "loaded") + " and copied, counts differently");
				if (o->image() != m.image) mc::violation(std::string(v ? "mapped" : "loaded") + ": saved again it differs from what was saved first");
				{ ObjP r = lim->proto->fresh(); load(*r, o->image(), "", "", "reloaded"); if (r->behave() != m.behave) mc::violation(std::string(v ? "mapped" : "loaded") + ", saved again and loaded, counts differently"); }
				ObjP c = lim->proto->fresh(); c->swap(*o);
				if (c->behave() != m.behave) mc::violation(std::string(v ? "mapped" : "loaded") + " and swapped, counts differently");
			}
			++mc::ctx().st.nontrivial;
		});

	// small programs
	fx::Pool pool;
	pool.nul = {fx::EPS, fx::FALSE_, fx::A, fx::B, fx::STR, fx::ALTS, fx::DOT, fx::BMARK, fx::EMARK};
	pool.un = {fx::STAR, fx::NOT, fx::POW2, fx::SURR, fx::APP};
	pool.bin = {fx::CAT, fx::OR, fx::AND};
	pool.build(deep ? 4 : 2);
	mc::phase("program", pool.nodes.size(), [&](uint64_t i) { return pool.text((int)i); }, [&](uint64_t i) { program(fx::build(pool, (int)i)); });
	return mc::finish();
}
