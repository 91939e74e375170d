// P14: damaged, truncated or foreign scanner images are refused without side effects.
//
// Every image of the pools of all 15 kinds, cut at every byte; every byte of the header and of the signatures with
// every other value; every misaligned address; every kind into every other kind; for targets that are new, hold a
// scanner or hold a mapped one.  Mapped memory ends at an unreadable page, or in the sanitizer build at the end of
// a heap block.
#include "box.h"
using namespace box;

unsigned char box::fillByte = 0;
bool box::fullPrint = true;
static std::vector<Kind> K;

#if defined(__SANITIZE_ADDRESS__)
static const bool asan = true;
#else
static const bool asan = false;
#endif

/// bytes at an address, with what follows unreadable
struct Mem {
	char* p = nullptr; void* raw = nullptr; BlockP b;
	Mem(const std::string& s, size_t off = 0) {
		if (asan) {
			if (posix_memalign(&raw, 16, s.size() + off + (s.size() + off == 0))) abort();
			p = (char*)raw + off;
			memcpy(p, s.data(), s.size());
		} else { b = std::make_shared<Block>(s, 8, off); p = b->p; }
	}
	~Mem() { free(raw); }
};

enum Targets { NEW, HELD, MAPPED, OTHER };
static const char* tname[] = {"a new scanner", "a scanner in memory", "a mapped scanner", "a glued scanner"};
struct Target { ObjP o; std::string image, behave; };
static Target target(const Kind& k, int t) {
	Target r;
	if (t == NEW) r.o = k.proto->fresh();
	else r.o = k.pool[t == OTHER ? 3 : 1].obj->copy();
	if (t == MAPPED) {
		std::string img = r.o->image();
		r.o = k.proto->fresh();
		auto b = std::make_shared<Block>(img);
		r.o->keep.push_back(b);
		r.o->map(b->p, b->n);
	}
	r.image = r.o->image();
	r.behave = r.o->behave();
	return r;
}

enum Verdict { REFUSED, ACCEPTED, WRONG };
static Verdict feed(Obj& o, const std::string& img, bool byMap, size_t off, std::string& err) {
	try {
		if (byMap) { Mem m(img, off); o.map(m.p, img.size()); }
		else { std::istringstream in(img); o.load(in); }
		return ACCEPTED;
	} catch (Pire::Error&) {
		return REFUSED;
	} catch (std::exception& e) {
		err = e.what();
		return WRONG;
	}
}

/// must be refused and leave the target alone (its image is compared each time, its behaviour by the caller)
static bool refuse(Target& t, const std::string& img, bool byMap, size_t off, const std::string& what) {
	++mc::ctx().st.transitions;
	std::string err;
	Verdict v = feed(*t.o, img, byMap, off, err);
	std::string how = byMap ? "mapping " : "loading ";
	if (v == ACCEPTED) { mc::violation(how + what + " succeeded"); return false; }
	if (v == WRONG) { mc::violation(how + what + " threw something else than the library's error: " + err); return false; }
	if (t.o->image() != t.image) { mc::violation(how + what + " changed the target"); return false; }
	return true;
}
static void unchanged(Target& t, const std::string& what) {
	if (t.o->behave() != t.behave) mc::violation(what + ": the target behaves differently afterwards");
	++mc::ctx().st.replays;
}

static int shortcut(const Kind& k) { return k.name.find("NoMask") != std::string::npos; }
/// the kind is recorded in the header: images of one recorded kind are interchangeable
static bool interchangeable(const Kind& a, const Kind& b) {
	bool la = a.type >= 4, lb = b.type >= 4;
	if (la && lb) return true;                      // counters and the like share a format
	return a.type == b.type && (a.type != 1 || shortcut(a) == shortcut(b));
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool deep = mc::ctx().thorough;
	K = box::all();
	struct I { int k, m, t; };
	std::vector<I> items;
	for (size_t k = 0; k < K.size(); ++k)
		for (size_t m = 0; m < K[k].pool.size(); ++m)
			for (int t = 0; t < 4; ++t) {
				if (t == MAPPED && !K[k].canMap) continue;
				if (asan && !deep && (t == HELD || t == OTHER)) continue;
				items.push_back({(int)k, (int)m, t});
			}
	auto name = [&](uint64_t i) { auto& x = items[i]; return K[x.k].name + " " + K[x.k].pool[x.m].name + " into " + tname[x.t]; };

	mc::phase("truncated", items.size(), name, [&](uint64_t i) {
		auto& x = items[i];
		const Kind& k = K[x.k];
		const std::string& img = k.pool[x.m].image;
		Target t = target(k, x.t);
		for (size_t n = 0; n < img.size(); ++n) {
			if (!deep && asan && n > 600 && n + 600 < img.size() && n % 16 > 1) continue;
			for (int byMap = 0; byMap <= (k.canMap ? 1 : 0); ++byMap)
				if (!refuse(t, img.substr(0, n), byMap, 0, "the first " + std::to_string(n) + " of " + std::to_string(img.size()) + " bytes")) return;
		}
		unchanged(t, "cut images");
		std::string err;
		if (feed(*t.o, img, false, 0, err) != ACCEPTED || t.o->behave() != k.pool[x.m].behave) mc::violation("loading the whole image afterwards fails");
		++mc::ctx().st.nontrivial;
	});

	mc::phase("header", items.size(), name, [&](uint64_t i) {
		auto& x = items[i];
		const Kind& k = K[x.k];
		const std::string& img = k.pool[x.m].image;
		Target t = target(k, x.t);
		std::vector<size_t> at;
		for (size_t b = 0; b < 24; ++b) at.push_back(b);
		if (k.type == 1) for (size_t b = 24 + 32; b < 24 + 48; ++b) at.push_back(b);   // relocation and shortcut signatures
		for (size_t b : at)
			for (int v = 0; v < 256; ++v) {
				std::string d = img;
				if ((unsigned char)d[b] == v) continue;
				d[b] = (char)v;
				if (b == 4 && v == 6) continue;                            // the preceding version is a right one
				if (b == 16 && k.type >= 4 && (v == 4 || v == 5)) continue; // counters share a format
				for (int byMap = 0; byMap <= (k.canMap ? 1 : 0); ++byMap)
					if (!refuse(t, d, byMap, 0, "an image with byte " + std::to_string(b) + " set to " + std::to_string(v))) return;
			}
		unchanged(t, "damaged headers");
		++mc::ctx().st.nontrivial;
	});

	mc::phase("misaligned", items.size(), name, [&](uint64_t i) {
		auto& x = items[i];
		const Kind& k = K[x.k];
		if (!k.canMap) return;
		Target t = target(k, x.t);
		for (size_t off = 1; off < 8; ++off)
			if (!refuse(t, k.pool[x.m].image, true, off, "at an address that is " + std::to_string(off) + " off")) return;
		unchanged(t, "misaligned images");
	});

	mc::phase("foreign", items.size(), [&](uint64_t i) { auto& x = items[i]; return "everything into " + K[x.k].name + ", " + tname[x.t] + " #" + std::to_string(x.m); }, [&](uint64_t i) {
		auto& x = items[i];
		const Kind& k = K[x.k];
		Target t = target(k, x.t);
		for (auto& o : K) {
			if (interchangeable(k, o)) continue;
			for (auto& m : o.pool)
				for (int byMap = 0; byMap <= (k.canMap ? 1 : 0); ++byMap)
					if (!refuse(t, m.image, byMap, 0, "an image of " + o.name + " " + m.name)) return;
		}
		unchanged(t, "foreign images");
		++mc::ctx().st.nontrivial;
	});

	// every sequence of two refusals (the kind of damage) and then the right image
	mc::phase("repeated", items.size(), name, [&](uint64_t i) {
		auto& x = items[i];
		const Kind& k = K[x.k];
		const Made& m = k.pool[x.m];
		std::vector<std::string> bad;
		for (size_t n : {(size_t)0, (size_t)10, (size_t)24, (size_t)40, m.image.size() / 2, m.image.size() - 1}) if (n < m.image.size()) bad.push_back(m.image.substr(0, n));
		for (int b : {0, 4, 8, 12, 16, 20}) { std::string d = m.image; d[b] ^= 0x40; bad.push_back(d); }
		for (size_t a = 0; a < bad.size(); ++a)
			for (size_t b = 0; b < bad.size(); ++b)
				for (int ways = 0; ways < 8; ++ways) {
					if (!k.canMap && ways) continue;
					Target t = target(k, x.t);
					if (!refuse(t, bad[a], ways & 1, 0, "damage " + std::to_string(a))) return;
					if (!refuse(t, bad[b], ways & 2, 0, "damage " + std::to_string(b))) return;
					std::string err;
					Mem mem(m.image);
					bool ok = true;
					try {
						if (ways & 4) t.o->map(mem.p, m.image.size());
						else { std::istringstream in(m.image); t.o->load(in); }
					} catch (...) { ok = false; }
					if (!ok || t.o->image() != m.image) { mc::violation("the right image is not taken after refusals"); return; }
					t.o.reset();
					if (asan && !deep) break;
				}
	});
	return mc::finish();
}
