// P24, threads: every order of the synchronisations of two or three threads that build, parse, compile, run, copy
// and save, each execution in a pristine process; see sched_rt.h.
#include "kinds.h"
#include "sched_rt.h"
#include <pire/extra.h>
#include <pire/easy.h>
#include <pire/approx_matching.h>
#include <memory>

using namespace kinds;
using Pire::CapturingScanner; using Pire::SlowCapturingScanner; using Pire::CountingScanner;
using Pire::AdvancedCountingScanner; using Pire::NoGlueLimitCountingScanner;

// ---- explorer ---------------------------------------------------------------------------------------------------
static std::string schedText(const std::vector<sched::Point>& t) {
	std::string r;
	for (auto& p : t) r += char('0' + p.chosen);
	return r;
}
/// all schedules with at most `bound` preemptions
static void explore(const sched::Setup& setup, const std::vector<sched::Body>& bodies, int bound, const std::vector<std::string>& expected) {
	std::vector<int> schedule;
	uint64_t runs = 0;
	for (;;) {
		auto o = sched::execute(setup, bodies, schedule);
		++runs;
		mc::ctx().st.transitions += o.trace.size();
		mc::count("accesses", o.accesses);
		std::string e = o.error;
		for (size_t i = 0; e.empty() && i < bodies.size(); ++i)
			if (o.out[i] != expected[i])
				e = "thread " + std::to_string(i) + " gives " + mc::show(o.out[i].substr(0, 200)) + " and " + mc::show(expected[i].substr(0, 200)) + " when it runs alone";
		if (!e.empty()) { mc::violation("schedule " + schedText(o.trace) + ": " + e); break; }
		// the last point where another thread can be chosen
		std::vector<int> used(o.trace.size() + 1, 0);   // preemptions before each point
		for (size_t i = 0; i < o.trace.size(); ++i) {
			auto& p = o.trace[i];
			used[i + 1] = used[i] + (p.prev != 255 && p.chosen != p.prev && (p.enabled >> p.prev & 1));
		}
		// choices at a point are taken in the order: the thread that was running, then the others by number
		int at = -1, next = -1;
		for (int i = (int)o.trace.size() - 1; i >= 0 && at < 0; --i) {
			auto& p = o.trace[i];
			std::vector<int> order;
			bool run = p.prev != 255 && (p.enabled >> p.prev & 1);
			if (run) order.push_back(p.prev);
			for (int t = 0; t < (int)bodies.size(); ++t) if ((p.enabled >> t & 1) && !(run && t == p.prev)) order.push_back(t);
			for (size_t k = 0; k + 1 < order.size(); ++k)
				if (order[k] == p.chosen) {
					if (used[i] + (run ? 1 : 0) <= bound) { at = i; next = order[k + 1]; }
					break;
				}
		}
		if (at < 0) break;
		schedule.clear();
		for (int i = 0; i < at; ++i) schedule.push_back(o.trace[i].chosen);
		schedule.push_back(next);
	}
	mc::count("schedules", runs);
	mc::ctx().st.states += runs;
	mc::ctx().st.replays += runs;
	++mc::ctx().st.nontrivial;
}
static std::vector<std::string> alone(const sched::Setup& setup, const std::vector<sched::Body>& bodies) {
	std::vector<std::string> r;
	for (auto& b : bodies) {
		auto o = sched::execute(setup, {b}, {});
		if (!o.error.empty()) throw mc::Fail("alone: " + o.error);
		r.push_back(o.out[0]);
	}
	return r;
}

// ---- what the threads do ----------------------------------------------------------------------------------------
template<class Sc> static std::string runs(const Sc& sc) {
	std::string r;
	for (const char* t : {"", "a", "ab", "xxabccabzzz", "AB1 abab", "\xd1\x8f" "ab"}) {
		auto st = Pire::Runner(sc).Begin().Run(t, strlen(t)).End();
		r += char('0' + (bool)st);
	}
	return r;
}
template<class Sc> static std::string fullRuns(const Sc& sc) {
	std::string r = runs(sc);
	for (const char* t : {"", "a", "ab", "xxabccabzzz"}) {
		const char* e = t + strlen(t);
		const char* p[] = {Pire::LongestPrefix(sc, t, e), Pire::ShortestPrefix(sc, t, e), Pire::LongestSuffix(sc, e - 1, t - 1), Pire::ShortestSuffix(sc, e - 1, t - 1)};
		for (auto q : p) r += q ? char('A' + (q - t + 1)) : '-';
		typename Sc::State st;
		sc.Initialize(st);
		Pire::Run(sc, st, t, e);
		r += char('0' + sc.Final(st)); r += char('0' + sc.Dead(st));
		for (auto x : accepted(sc, st)) r += char('0' + x);
	}
	return r;
}
template<class Sc> static std::string counts(const Sc& sc) {
	std::string r;
	for (const char* t : {"", "a", "ab", "xxabccabzzz", "abababab"}) {
		auto st = Pire::Runner(sc).Begin().Run(t, strlen(t)).End();
		for (size_t i = 0; i < sc.RegexpsCount(); ++i) r += char('0' + st.State().Result(i));
	}
	return r;
}
static std::string captures(const CapturingScanner& sc) {
	std::string r;
	for (const char* t : {"", "a", "abc", "xxabccabzzz"}) {
		auto st = Pire::Runner(sc).Begin().Run(t, strlen(t)).End();
		r += st.State().Captured() ? std::to_string(st.State().Begin()) + "-" + std::to_string(st.State().End()) + "," : "-,";
	}
	return r;
}
static std::string slowCaptures(const SlowCapturingScanner& sc) {
	std::string r;
	for (const char* t : {"", "a", "abc", "xxabccabzzz"}) {
		SlowCapturingScanner::State st;
		sc.Initialize(st);
		for (const char* c = t; *c; ++c) Pire::Step(sc, st, (unsigned char)*c);
		SlowCapturingScanner::SingleState f;
		r += sc.GetCapture(st, f) ? std::to_string(f.Begin()) + "-" + std::to_string(f.End()) + "," : "-,";
	}
	return r;
}
static Fsm parse(const std::string& p) { return Pire::Lexer(p).Parse(); }

struct Task { const char* name; std::string (*fn)(); };
static std::string pmsg(const std::string& p, Pire::Lexer& lx) {
	try { return runs(lx.Parse().Surround().Compile<Scanner>()); }
	catch (const Pire::Error& e) { return std::string("refused: ") + e.what(); }
}
static const Task tasks[] = {
	{"classes", [] { Pire::Lexer lx("\\da|[[:alpha:]]b"); return pmsg("", lx); }},
	{"other classes", [] { Pire::Lexer lx("[\\W]|[^\\s]b"); return pmsg("", lx); }},
	{"UTF-8, any case", [] {
		std::string p = "\xd1\x8f" "a.b?";
		std::vector<Pire::wchar32> u;
		Pire::Encodings::Utf8().FromLocal(p.data(), p.data() + p.size(), std::back_inserter(u));
		Pire::Lexer lx; lx.Assign(u.begin(), u.end());
		lx.SetEncoding(Pire::Encodings::Utf8()); lx.AddFeature(Pire::Features::CaseInsensitive());
		return pmsg("", lx); }},
	{"glyphs", [] { Pire::Lexer lx("ab0"); lx.AddFeature(Pire::Features::GlueSimilarGlyphs()); return pmsg("", lx); }},
	{"and, not", [] { Pire::Lexer lx("(a.?)&~(ac)"); lx.AddFeature(Pire::Features::AndNotSupport()); return pmsg("", lx); }},
	{"refused", [] { Pire::Lexer lx("a(b{3"); return pmsg("", lx); }},
	{"new scanners", [] {
		Scanner a; NonrelocScannerNoMask b; SimpleScanner c; SlowScanner d; HalfFinalScanner e; CountingScanner f; CapturingScanner g; SlowCapturingScanner h;
		NoGlueLimitCountingScanner k; AdvancedCountingScanner l;
		return runs(a) + runs(b) + runs(c) + runs(d) + runs(e) + image(a) + image(c); }},
	{"simple, slow", [] { Fsm f = parse("a+b|c").Surround(); return runs(compile<SimpleScanner>(f)) + runs(compile<SlowScanner>(f)); }},
	{"other kinds", [] { Fsm f = parse("a?bc*"); return fullRuns(compile<NonrelocScanner>(f)) + runs(compile<ScannerNoMask>(f)) + runs(HalfFinalScanner(f)); }},
	{"glue", [] { return fullRuns(Scanner::Glue(compile<Scanner>(parse("ab").Surround()), compile<Scanner>(parse("c")))); }},
	{"counters", [] {
		CountingScanner a(parse("a"), parse("b")); AdvancedCountingScanner b(parse("a"), parse("")); NoGlueLimitCountingScanner c(parse("a"), parse(""));
		return counts(a) + counts(b) + counts(c) + counts(CountingScanner::Glue(a, a)); }},
	{"capture", [] {
		Pire::Lexer lx("a(b+)c"); lx.AddFeature(Pire::Features::Capture(1));
		Fsm f = lx.Parse(), s = f;
		s.Surround();
		Pire::Lexer sl(".*a(b+?)c?"); sl.AddFeature(Pire::Features::Capture(1));
		return captures(s.Compile<CapturingScanner>()) + slowCaptures(SlowCapturingScanner(*new Fsm(sl.Parse()))); }},
	{"approximate", [] { Fsm f = Pire::CreateApproxFsm(parse("ab"), 1).Surround(); return runs(compile<Scanner>(f)); }},
	{"save, load, map", [] {
		std::string im = image(compile<Scanner>(parse("a.*b|c"))), im2 = image(compile<SimpleScanner>(parse("ab")));
		Scanner s, m; SimpleScanner t;
		std::istringstream i1(im), i2(im2);
		s.Load(&i1); t.Load(&i2);
		std::vector<size_t> al(im.size() / 8 + 1);
		memcpy(&al[0], im.data(), im.size());
		m.Mmap(&al[0], im.size());
		return fullRuns(s) + runs(t) + runs(m); }},
	{"matcher", [] {
		Pire::Regexp a("^ab*c?$", Pire::I), b("a[[:digit:]]", Pire::UTF8);
		std::string r;
		for (const char* t : {"", "AB", "xa1", "abbbb"}) { r += char('0' + (t ==~ a)); r += char('0' + (t ==~ b)); }
		return r; }},
	{"automata", [] {
		Fsm f = parse("(ab|c)*d");
		Fsm g(f); g.Reverse(); g.Determine(); g.Minimize();
		Fsm h = ~f & parse("[a-d]*");
		f.Canonize(); h.Canonize();
		std::ostringstream o; o << f.Size() << " " << g.Size() << " " << h.Size();
		return o.str() + runs(h.Compile<Scanner>()); }},
};
enum { NT = sizeof(tasks) / sizeof(*tasks) };

// ---- runs over one scanner --------------------------------------------------------------------------------------
struct Sharing {
	std::string name;
	sched::Setup setup;
	std::vector<std::pair<std::string, sched::Body>> bodies;
};
template<class Sc, class Run> static Sharing sharing(const std::string& name, std::function<Sc()> make, Run run) {
	Sharing s;
	s.name = name;
	s.setup = [=] { return (void*)new Sc(make()); };
	s.bodies.push_back({"run", [=](void* p) { return run(*(const Sc*)p); }});
	s.bodies.push_back({"copy and run", [=](void* p) { Sc x(*(const Sc*)p), y; y = x; return run(y); }});
	s.bodies.push_back({"save", [=](void* p) { return image(*(const Sc*)p); }});
	return s;
}
static void addGlue(Sharing&, ...) {}
template<class Sc, class Run> static Sharing glueable(const std::string& name, std::function<Sc()> make, Run run) {
	Sharing s = sharing<Sc>(name, make, run);
	s.bodies.push_back({"glue with itself", [=](void* p) { return run(Sc::Glue(*(const Sc*)p, *(const Sc*)p)); }});
	return s;
}
static std::vector<Sharing> shares() {
	std::vector<Sharing> r;
	std::function<Scanner()> mk = [] { return Scanner::Glue(compile<Scanner>(parse("ab*").Surround()), compile<Scanner>(parse("c."))); };
	r.push_back(glueable<Scanner>("Scanner", mk, fullRuns<Scanner>));
	r.push_back(sharing<Scanner>("loaded Scanner", [mk] { std::istringstream i(image(mk())); Scanner s; s.Load(&i); return s; }, fullRuns<Scanner>));
	r.push_back(sharing<Scanner>("mapped Scanner", [mk] {
		std::string im = image(mk());
		auto v = new std::vector<size_t>(im.size() / 8 + 1);
		memcpy(&(*v)[0], im.data(), im.size());
		Scanner s; s.Mmap(&(*v)[0], im.size()); return s; }, fullRuns<Scanner>));
	r.push_back(glueable<NonrelocScannerNoMask>("NonrelocScannerNoMask", [] { return compile<NonrelocScannerNoMask>(parse("a.b|c").Surround()); }, fullRuns<NonrelocScannerNoMask>));
	r.push_back(sharing<SimpleScanner>("SimpleScanner", [] { return compile<SimpleScanner>(parse("a.b|c").Surround()); }, fullRuns<SimpleScanner>));
	r.push_back(sharing<SlowScanner>("SlowScanner", [] { return compile<SlowScanner>(parse("a.b|c").Surround()); }, fullRuns<SlowScanner>));
	r.push_back(sharing<HalfFinalScanner>("HalfFinalScanner", [] { Pire::HalfFinalFsm h(parse("ab*")); h.MakeGreedyCounter(); return HalfFinalScanner(h); },
		[](const HalfFinalScanner& sc) {
			std::string s = runs(sc);
			for (const char* t : {"ab", "abbab"}) { auto st = Pire::Runner(sc).Begin().Run(t, strlen(t)).End(); s += char('0' + st.State().Result(0)); }
			return s; }));
	r.push_back(glueable<CountingScanner>("CountingScanner", [] { return CountingScanner(parse("ab"), parse(".*")); }, counts<CountingScanner>));
	r.push_back(glueable<AdvancedCountingScanner>("AdvancedCountingScanner", [] { return AdvancedCountingScanner(parse("a"), parse("b")); }, counts<AdvancedCountingScanner>));
	r.push_back(glueable<NoGlueLimitCountingScanner>("NoGlueLimitCountingScanner", [] { return NoGlueLimitCountingScanner(parse("a"), parse("b")); }, counts<NoGlueLimitCountingScanner>));
	auto cap = [](const char* p, bool s) { Pire::Lexer lx(p); lx.AddFeature(Pire::Features::Capture(1)); Fsm f = lx.Parse(); if (s) f.Surround(); return f; };
	r.push_back(sharing<CapturingScanner>("CapturingScanner", [cap] { return CapturingScanner(*new Fsm(cap("a(b+)c", true))); }, captures));
	r.push_back(sharing<SlowCapturingScanner>("SlowCapturingScanner", [cap] { return SlowCapturingScanner(*new Fsm(cap(".*a(b+?)c?", false))); }, slowCaptures));
	{   // one automaton, constant
		Sharing s; s.name = "Fsm";
		s.setup = [] { return (void*)new Fsm(parse("(ab|c)*d")); };
		s.bodies.push_back({"copy and compile", [](void* p) { Fsm f(*(const Fsm*)p); return runs(f.Compile<Scanner>()); }});
		s.bodies.push_back({"combine", [](void* p) { const Fsm& f = *(const Fsm*)p; return runs((f + f | ~f & *f).Compile<Scanner>()); }});
		s.bodies.push_back({"count", [](void* p) { const Fsm& f = *(const Fsm*)p; return counts(CountingScanner(f, f)) + std::to_string(f.Size()); }});
		s.bodies.push_back({"approximate", [](void* p) { return runs(Pire::CreateApproxFsm(*(const Fsm*)p, 1).Compile<Scanner>()); }});
		s.bodies.push_back({"half-final", [](void* p) { return runs(HalfFinalScanner(*(const Fsm*)p)); }});
		r.push_back(s);
	}
	{
		Sharing s; s.name = "Regexp";
		s.setup = [] { return (void*)new Pire::Regexp("^(ab*|c)$", Pire::I); };
		sched::Body b = [](void* p) { std::string r; for (const char* t : {"", "AB", "xa1", "abbbb"}) r += char('0' + (t ==~ *(const Pire::Regexp*)p)); return r; };
		s.bodies.push_back({"match", b});
		s.bodies.push_back({"copy and match", [b](void* p) { Pire::Regexp x(*(const Pire::Regexp*)p); return b(&x); }});
		r.push_back(s);
	}
	{   // runs over two scanners that live in one image
		Sharing s; s.name = "pair of scanners";
		typedef std::pair<Scanner, SimpleScanner> P;
		s.setup = [] { return (void*)new P(compile<Scanner>(parse("ab")), compile<SimpleScanner>(parse("a+").Surround())); };
		s.bodies.push_back({"run both", [](void* p) {
			auto& q = *(const P*)p;
			std::string r;
			for (const char* t : {"", "ab", "xab"}) {
				typedef Pire::ScannerPair<Scanner, SimpleScanner> SP;
				SP sp(q.first, q.second);
				SP::State st; sp.Initialize(st);
				Pire::Run(sp, st, t, t + strlen(t));
				r += char('0' + q.first.Final(st.first)); r += char('0' + q.second.Final(st.second));
			}
			return r; }});
		s.bodies.push_back({"run one", [](void* p) { auto& q = *(const P*)p; return fullRuns(q.first) + fullRuns(q.second); }});
		r.push_back(s);
	}
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool deep = mc::ctx().thorough;
	auto body = [](int i) -> sched::Body { return [i](void*) { return tasks[i].fn(); }; };
	if (getenv("P24_SHOW")) for (int i = 0; i < NT; ++i) {
		double t = mc::now();
		auto o = sched::execute(nullptr, {body(i)}, {});
		auto p = sched::execute(nullptr, {body(i), body(i)}, {});
		fprintf(stderr, "%s: %.3f s, %zu points, %lu accesses, together %zu; %s %s %s\n", tasks[i].name, mc::now() - t, o.trace.size(), o.accesses, p.trace.size(), o.out.empty() ? "" : mc::show(o.out[0]).c_str(), o.error.c_str(), p.error.c_str());
	}
	// pairs of tasks, each in a pristine process
	int bound = deep ? 6 : 3;
	mc::phase("pairs", NT * (NT + 1) / 2, [&](uint64_t k) {
		int i = 0; while (k >= uint64_t(NT - i)) { k -= NT - i; ++i; }
		return std::string(tasks[i].name) + " || " + tasks[i + k].name;
	}, [&](uint64_t k) {
		int i = 0; while (k >= uint64_t(NT - i)) { k -= NT - i; ++i; }
		std::vector<sched::Body> b{body(i), body(i + k)};
		explore(nullptr, b, bound, alone(nullptr, b));
	});
	auto sh = shares();
	std::vector<std::vector<int>> combos;
	for (int s = 0; s < (int)sh.size(); ++s)
		for (int i = 0; i < (int)sh[s].bodies.size(); ++i)
			for (int j = i; j < (int)sh[s].bodies.size(); ++j) combos.push_back({s, i, j});
	mc::phase("shared", combos.size(), [&](uint64_t k) {
		auto& c = combos[k];
		return sh[c[0]].name + ": " + sh[c[0]].bodies[c[1]].first + " || " + sh[c[0]].bodies[c[2]].first;
	}, [&](uint64_t k) {
		auto& c = combos[k];
		std::vector<sched::Body> b{sh[c[0]].bodies[c[1]].second, sh[c[0]].bodies[c[2]].second};
		explore(sh[c[0]].setup, b, deep ? 8 : 4, alone(sh[c[0]].setup, b));
	});
	// three threads
	std::vector<std::vector<int>> tri;
	for (int i = 0; i < NT; ++i) for (int j = i; j < NT; ++j) for (int k = j; k < NT; ++k)
		if (deep || (i == j && j == k)) tri.push_back({i, j, k});
	mc::phase("three threads", tri.size(), [&](uint64_t k) {
		auto& t = tri[k];
		return std::string(tasks[t[0]].name) + " || " + tasks[t[1]].name + " || " + tasks[t[2]].name;
	}, [&](uint64_t k) {
		std::vector<sched::Body> b;
		for (int x : tri[k]) b.push_back(body(x));
		explore(nullptr, b, deep ? 2 : 1, alone(nullptr, b));
	});
	return mc::finish();
}
