// P24, one thread: every interleaving of the steps of two and three runs over one scanner.
//
// The scanner, of every kind, in memory, loaded or mapped, lies in write-protected memory while the runs execute, so
// that a step which modifies it ends the process; what each run reports after every step is what it reports when it
// runs alone over another scanner of the same content.
#include "box.h"
#include <new>
using namespace box;

unsigned char box::fillByte = 0;
bool box::fullPrint = true;

// ---- write-protected memory -------------------------------------------------------------------------------------
namespace frozen {
enum : size_t { Size = size_t(1) << 29 };
static char *base = nullptr, *at = nullptr;
static bool on = false;
static void begin() {
	if (!base) at = base = (char*)mmap(nullptr, Size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	on = true;
}
static void protect() { on = false; mprotect(base, Size, PROT_READ); }
static void end() { mprotect(base, Size, PROT_READ | PROT_WRITE); }
static bool has(void* p) { return base && (char*)p >= base && (char*)p < base + Size; }
}
void* operator new(size_t n) {
	if (frozen::on) {
		char* p = (char*)(((uintptr_t)frozen::at + 63) & ~(uintptr_t)63);
		frozen::at = p + n;
		if (frozen::at <= frozen::base + frozen::Size) return p;
		throw std::bad_alloc();
	}
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!frozen::has(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---- runs -------------------------------------------------------------------------------------------------------
static const char* const LONG = "abcabxabccbaabcabcabbacxxabcabcab";
enum { A, B, C, CHUNK, COPY, SAVE, PREFIX, NOPS };
static const char* opNames[] = {"a", "b", "c", "<33 bytes>", "<copy the scanner, run the copy, drop it>", "<save the scanner>", "<search a prefix>"};

template<class Sc> std::string report(const Sc& sc, const typename Sc::State& st) {
	std::string r;
	r += char(sc.Final(st)); r += char(sc.Dead(st));
	for (auto x : accepted(sc, st)) r += char(x + 1);
	return r;
}
template<class Sc> std::string reportCount(const Sc& sc, const typename Sc::State& st) {
	std::string r;
	for (size_t i = 0; i < sc.RegexpsCount(); ++i) r += char(st.Result(i));
	r += char(sc.Final(st));
	return r;
}
template<> std::string report(const CountingScanner& sc, const CountingScanner::State& st) { return reportCount(sc, st); }
template<> std::string report(const AdvancedCountingScanner& sc, const AdvancedCountingScanner::State& st) { return reportCount(sc, st); }
template<> std::string report(const NoGlueLimitCountingScanner& sc, const NoGlueLimitCountingScanner::State& st) { return reportCount(sc, st); }
template<> std::string report(const CapturingScanner& sc, const CapturingScanner::State& st) {
	std::string r;
	r += char(sc.Final(st)); r += char(st.Captured());
	if (st.Captured()) { r += char(st.Begin()); r += char(st.End()); }
	return r;
}
template<> std::string report(const SlowCapturingScanner& sc, const SlowCapturingScanner::State& st) {
	std::string r;
	SlowCapturingScanner::SingleState f;
	bool ok = sc.GetCapture(st, f);
	r += char(ok); r += char(st.GetSize());
	if (ok) { r += char(f.Begin()); r += char(f.End()); }
	return r;
}
template<class Sc> struct Prefix {
	static void search(const Sc& sc) {
		const char* e = LONG + 20;
		(void)Pire::LongestPrefix(sc, LONG, e); (void)Pire::ShortestPrefix(sc, LONG, e);
	}
};
template<> struct Prefix<SlowCapturingScanner> { static void search(const SlowCapturingScanner&) {} };

template<class Sc> struct Run {
	typename Sc::State st;
	std::string start(const Sc& sc) { sc.Initialize(st); return report(sc, st); }
	std::string step(const Sc& sc, int op) {
		switch (op) {
			case CHUNK: Pire::Run(sc, st, LONG, LONG + 33); break;
			case COPY: { Sc x(sc); typename Sc::State s; x.Initialize(s); Pire::Run(x, s, LONG, LONG + 5); break; }
			case SAVE: (void)image(sc); break;
			case PREFIX: Prefix<Sc>::search(sc); break;
			default: Pire::Step(sc, st, (Pire::Char)('a' + op));
		}
		++mc::ctx().st.transitions;
		return report(sc, st);
	}
};

typedef std::vector<int> Seq;
static std::vector<Seq> sequences(int len, const std::vector<int>& ops) {
	std::vector<Seq> r{{}};
	for (size_t b = 0; (int)r[b].size() < len; ++b)
		for (int o : ops) { Seq s = r[b]; s.push_back(o); r.push_back(s); }
	std::vector<Seq> full;
	for (auto& s : r) if ((int)s.size() == len) full.push_back(s);
	return full;   // the shorter ones are their beginnings
}

template<class Sc> struct Exploration {
	const Sc& sc;
	std::vector<Seq> seqs;
	std::vector<std::vector<std::string>> aloneReports;   // of each sequence, after each step
	std::string error;
	Exploration(const Sc& shared, const Sc& other, int len, const std::vector<int>& ops) : sc(shared), seqs(sequences(len, ops)) {
		for (auto& s : seqs) {
			Run<Sc> r;
			std::vector<std::string> v{r.start(other)};
			for (int o : s) v.push_back(r.step(other, o));
			aloneReports.push_back(v);
		}
	}
	bool fail(const std::vector<int>& who, const std::vector<int>& order, int run) {
		error = "interleaving ";
		std::vector<size_t> at(who.size(), 0);
		for (int r : order) {
			error += "run " + std::to_string(r) + ": ";
			error += at[r] ? opNames[seqs[who[r]][at[r] - 1]] : "start";
			error += "; ";
			++at[r];
		}
		error += "run " + std::to_string(run) + " does not report what it reports alone";
		return false;
	}
	/// all orders of the remaining steps (number 0 is the start of the run)
	bool rec(const std::vector<int>& who, std::vector<Run<Sc>>& runs, std::vector<int>& at, std::vector<int>& order) {
		bool any = false;
		for (size_t r = 0; r < who.size(); ++r) {
			if (at[r] > (int)seqs[who[r]].size()) continue;
			any = true;
			Run<Sc> keep = runs[r];
			order.push_back((int)r);
			std::string got = at[r] ? runs[r].step(sc, seqs[who[r]][at[r] - 1]) : runs[r].start(sc);
			if (got != aloneReports[who[r]][at[r]]) return fail(who, order, (int)r);
			++at[r];
			if (!rec(who, runs, at, order)) return false;
			--at[r];
			order.pop_back();
			runs[r] = keep;
		}
		if (!any) {
			++mc::ctx().st.states;
			for (size_t r = 0; r < who.size(); ++r)
				if (report(sc, runs[r].st) != aloneReports[who[r]].back()) return fail(who, order, (int)r);
		}
		return true;
	}
	bool all(int n) {
		std::vector<int> who(n, 0);
		for (;;) {
			std::vector<Run<Sc>> runs(n);
			for (auto& r : runs) r.start(sc);
			std::vector<int> at(n, 0), order;
			if (!rec(who, runs, at, order)) return false;
			int p = n - 1;
			while (p >= 0 && ++who[p] == (int)seqs.size()) who[p--] = 0;
			if (p < 0) return true;
			for (int q = p + 1; q < n; ++q) who[q] = who[p];   // the order of the runs does not matter
		}
	}
};

enum Place { MEMORY, LOADED, MAPPED };
static const char* placeNames[] = {"in memory", "loaded", "mapped"};
struct Item { std::string desc; std::function<void()> run; };
static std::vector<Item> items;

template<class Sc> void add(const Kind& k) {
	bool deep = mc::ctx().thorough;
	for (auto& m : k.pool)
		for (int pl = 0; pl < 3; ++pl) {
			if (pl == MAPPED && !k.canMap) continue;
			items.push_back({k.name + " " + m.name + ", " + placeNames[pl], [&m, pl, deep] {
				const Sc& other = dynamic_cast<const ObjT<Sc>&>(*m.obj).sc;
				std::unique_ptr<Block> blk;
				std::istringstream in(m.image);
				if (pl == MAPPED) blk.reset(new Block(m.image));
				frozen::begin();
				Sc* sc = pl == MEMORY ? new Sc(other) : new Sc();
				if (pl == LOADED) sc->Load(&in);
				if (pl == MAPPED) Mapper<Sc>::map(*sc, blk->p, blk->n);
				frozen::protect();
				std::string e;
				auto go = [&](int runs, int len, const std::vector<int>& ops) {
					if (!e.empty()) return;
					Exploration<Sc> x(*sc, other, len, ops);
					x.all(runs);
					e = x.error;
				};
				go(2, deep ? 4 : 3, {A, B, C, CHUNK});
				go(2, 2, {A, B, CHUNK, COPY, SAVE, PREFIX});
				go(3, deep ? 2 : 1, {A, B, CHUNK, COPY, SAVE, PREFIX});
				go(3, 2, {A, B});
				if (e.empty() && image(*sc) != m.image) e = "the scanner is saved differently after the runs";
				frozen::end();
				sc->~Sc();
				if (!e.empty()) mc::violation(e);
				++mc::ctx().st.nontrivial;
			}});
		}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	box::fullPrint = false;
	auto K = box::all();
	add<Scanner>(K[0]); add<NonrelocScanner>(K[1]); add<ScannerNoMask>(K[2]); add<NonrelocScannerNoMask>(K[3]);
	add<HalfFinalScanner>(K[4]); add<NonrelocHalfFinalScanner>(K[5]); add<HalfFinalScannerNoMask>(K[6]); add<NonrelocHalfFinalScannerNoMask>(K[7]);
	add<SimpleScanner>(K[8]); add<SlowScanner>(K[9]);
	add<CountingScanner>(K[10]); add<AdvancedCountingScanner>(K[11]); add<NoGlueLimitCountingScanner>(K[12]);
	add<CapturingScanner>(K[13]); add<SlowCapturingScanner>(K[14]);
	mc::phase("interleavings", items.size(), [&](uint64_t i) { return items[i].desc; }, [&](uint64_t i) { items[i].run(); });
	return mc::finish();
}
