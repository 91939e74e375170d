// P15: scanners and automata are values.
//
// Every sequence, up to a length, of copy, move, assignment, self-assignment, swap, conversion, loading, default
// construction and destruction on three variables of every scanner kind, and of these and the mutating operations
// on three automata: after every sequence every variable behaves as the value it was last given.
#include "box.h"
#include "fsmexpr.h"
using namespace box;

unsigned char box::fillByte = 0;
bool box::fullPrint = true;
static std::vector<Kind> K;

// ---- scanners ---------------------------------------------------------------------------------------------------
struct Op { int what, i, j; };
enum { COPY, ASSIGN, MOVE, MOVEASSIGN, SWAP, STDSWAP, DEFAULT, CONVERT, LOAD, MAP };
static const char* onames[] = {"copied from", "assigned", "moved from", "move-assigned", "swapped with", "std::swapped with", "default-constructed", "converted", "loaded from", "mapped from"};
static std::vector<Op> ops;
static std::string opText(const Op& o) {
	std::string r = std::string("v") + char('0' + o.i) + " " + onames[o.what];
	if (o.what != DEFAULT && o.what != CONVERT) r += std::string(" v") + char('0' + o.j);
	return r;
}
static void makeOps() {
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			ops.push_back({COPY, i, j});
			ops.push_back({ASSIGN, i, j});
			if (i != j) { ops.push_back({MOVE, i, j}); ops.push_back({MOVEASSIGN, i, j}); }
			if (i <= j) ops.push_back({SWAP, i, j});
			if (i < j) ops.push_back({STDSWAP, i, j});
			if (i != j) { ops.push_back({LOAD, i, j}); ops.push_back({MAP, i, j}); }
		}
		ops.push_back({DEFAULT, i, i});
		ops.push_back({CONVERT, i, i});
	}
}
struct Values { std::vector<std::string> image, behave; };   // behave: on a few texts
struct World {
	const Kind& k;
	Values& v;
	ObjP x[3];
	int val[3];
	World(const Kind& k_, Values& v_) : k(k_), v(v_) {}
	/// what a moved-from variable now is becomes its value
	void observe(int i) {
		std::string im = x[i]->image(), b = x[i]->behave();
		for (size_t n = 0; n < v.image.size(); ++n) if (v.image[n] == im && v.behave[n] == b) { val[i] = (int)n; return; }
		v.image.push_back(im); v.behave.push_back(b);
		val[i] = (int)v.image.size() - 1;
	}
	bool apply(const Op& o) {
		int i = o.i, j = o.j;
		switch (o.what) {
			case COPY: { ObjP n = x[j]->copy(); x[i] = n; val[i] = val[j]; break; }
			case ASSIGN: x[i]->assign(*x[j]); val[i] = val[j]; break;
			case MOVE: { ObjP n = x[j]->move(); x[i] = n; val[i] = val[j]; observe(j); break; }
			case MOVEASSIGN: x[i]->moveAssign(*x[j]); val[i] = val[j]; observe(j); break;
			case SWAP: x[i]->swap(*x[j]); std::swap(val[i], val[j]); break;
			case STDSWAP: x[i]->stdSwap(*x[j]); std::swap(val[i], val[j]); break;
			case DEFAULT: x[i] = k.proto->fresh(); val[i] = 0; break;
			case CONVERT: { ObjP n = x[i]->convert(); if (!n) return false; x[i] = n; break; }
			case LOAD: { std::istringstream in(x[j]->image()); x[i]->load(in); val[i] = val[j]; break; }
			case MAP: {
				if (!k.canMap) return false;
				auto b = std::make_shared<Block>(x[j]->image());
				x[i]->keep.push_back(b);
				x[i]->map(b->p, b->n);
				val[i] = val[j];
				break;
			}
		}
		return true;
	}
	std::string check() {
		for (int i = 0; i < 3; ++i) {
			++mc::ctx().st.replays;
			if (x[i]->behave() != v.behave[val[i]]) return std::string("v") + char('0' + i) + " does not behave as its value";
			if (x[i]->image() != v.image[val[i]]) return std::string("v") + char('0' + i) + " is saved differently from its value";
		}
		return "";
	}
};

static void histories(const Kind& k, int a, int b, const std::vector<int>& first, int depth) {
	Values v;
	for (auto& m : k.pool) { v.image.push_back(m.image); v.behave.push_back(m.obj->behave()); }
	std::vector<int> seq(depth, 0);
	for (size_t d = 0; d < first.size(); ++d) seq[d] = first[d];
	for (;;) {
		World w(k, v);
		int init[3] = {a, b, 0};
		for (int i = 0; i < 3; ++i) { w.x[i] = k.pool[init[i]].obj->copy(); w.val[i] = init[i]; }
		bool ok = true;
		int d = 0;
		for (; d < depth && ok; ++d) ok = w.apply(ops[seq[d]]);
		mc::ctx().st.transitions += d;
		if (ok) {
			std::string e = w.check();
			if (!e.empty()) {
				std::string h;
				for (int q : seq) h += opText(ops[q]) + "; ";
				mc::violation(h + e);
				return;
			}
			++mc::ctx().st.states;
		}
		// next sequence; an inapplicable operation cuts off everything behind it
		int p = ok ? depth - 1 : d - 1;
		for (int q = p + 1; q < depth; ++q) seq[q] = 0;
		while (p >= (int)first.size() && ++seq[p] == (int)ops.size()) seq[p--] = 0;
		if (p < (int)first.size()) break;
	}
	++mc::ctx().st.nontrivial;
}

// ---- automata ---------------------------------------------------------------------------------------------------
namespace fa {
using ref::L;
enum { COPY, ASSIGN, MOVE, MOVEASSIGN, SWAP, STDSWAP, CAT, OR, AND, BINEND,
       DEFAULT = BINEND, NOT, STAR, POW2, SURR, APPA, APPDOT, REV, CANON, DETERM, COMPILE, REMEPS, SPARSE, UNSPARSE, END };
static const char* names[] = {"copied from", "assigned", "moved from", "move-assigned", "swapped with", "std::swapped with", "+=", "|=", "&=",
	"default", "complement", "iterate", "*= 2", "surround", "append a", "append dot", "reverse", "canonize", "determine", "compile", "remove epsilons", "sparse", "unsparse"};
static std::vector<Op> ops;
/// all operations, or (reduced) those on two variables without mere changes of representation
static void make(bool deep, bool reduced) {
	ops.clear();
	for (int i = 0; i < (reduced ? 2 : 3); ++i) {
		for (int w = 0; w < BINEND; ++w)
			for (int j = 0; j < (reduced ? 2 : 3); ++j) {
				if (reduced && (w == COPY || w == MOVE || w == STDSWAP)) continue;
				if ((w == MOVE || w == MOVEASSIGN) && i == j) continue;
				if ((w == SWAP) && i > j) continue;
				if ((w == STDSWAP) && i >= j) continue;
				if (!deep && w >= CAT && i == 2) continue;
				ops.push_back({w, i, j});
			}
		for (int w = BINEND; w < END; ++w) {
			if (!deep && i == 2) continue;
			if (reduced && (w == POW2 || w == SURR || w == APPDOT || w == COMPILE || w == DETERM || w == REMEPS)) continue;
			ops.push_back({w, i, i});
		}
	}
}
static std::string text(const Op& o) {
	std::string r = std::string("f") + char('0' + o.i) + " " + names[o.what];
	if (o.what < BINEND) r += std::string(" f") + char('0' + o.j);
	return r;
}
struct W {
	Fsm f[3];
	L l[3];
	bool known[3];
	void apply(const Op& o) {
		ref::Lang& g = fx::lang();
		int i = o.i, j = o.j;
		switch (o.what) {
			case COPY: { Fsm n(f[j]); f[i].Swap(n); l[i] = l[j]; known[i] = known[j]; break; }
			case ASSIGN: f[i] = f[j]; l[i] = l[j]; known[i] = known[j]; break;
			case MOVE: { Fsm n(std::move(f[j])); f[i].Swap(n); l[i] = l[j]; known[i] = known[j]; known[j] = false; break; }
			case MOVEASSIGN: f[i] = std::move(f[j]); l[i] = l[j]; known[i] = known[j]; known[j] = false; break;
			case SWAP: f[i].Swap(f[j]); std::swap(l[i], l[j]); std::swap(known[i], known[j]); break;
			case STDSWAP: std::swap(f[i], f[j]); std::swap(l[i], l[j]); std::swap(known[i], known[j]); break;
			case DEFAULT: f[i] = Fsm(); l[i] = g.eps(); known[i] = true; break;
			default:
				// a moved-from automaton may only be destroyed or assigned
				if (!known[i] || !known[j]) return;
				switch (o.what) {
					case CAT: f[i] += f[j]; l[i] = g.cat(l[i], l[j]); break;
					case OR: f[i] |= f[j]; l[i] = g.alt(l[i], l[j]); break;
					case AND: f[i] &= f[j]; l[i] = g.conj(l[i], l[j]); break;
					case NOT: f[i].Complement(); l[i] = g.inv(l[i]); break;
					case STAR: f[i].Iterate(); l[i] = g.star(l[i]); break;
					case POW2: f[i] *= 2; l[i] = g.cat(l[i], l[i]); break;
					case SURR: f[i].Surround(); l[i] = g.surround(l[i]); break;
					case APPA: f[i].Append('a'); l[i] = g.cat(l[i], g.letter('a')); break;
					case APPDOT: f[i].AppendDot(); l[i] = g.cat(l[i], g.bytes()); break;
					case REV: f[i].Reverse(); l[i] = g.rev(l[i]); break;
					case CANON: f[i].Canonize(); break;
					case DETERM: f[i].Determine(); break;
					case COMPILE: { Scanner s = f[i].Compile<Scanner>(); (void)s; break; }
					case REMEPS: f[i].RemoveEpsilons(); break;
					case SPARSE: f[i].Sparse(); break;
					case UNSPARSE: f[i].Unsparse(); break;
				}
		}
	}
};
static void initial(W& w, int which) {
	ref::Lang& g = fx::lang();
	static Fsm F[6];
	static L R[6];
	if (!R[0]) {
		F[0] = box::fsm("ab|c"); R[0] = g.alt(g.str("ab"), g.letter('c'));
		F[1] = box::fsm("a*b"); F[1].Canonize(); R[1] = g.cat(g.star(g.letter('a')), g.letter('b'));
		F[2] = Fsm(); R[2] = g.eps();
		F[3] = Fsm().Append('a').Complement(); R[3] = g.inv(g.letter('a'));
		F[4] = box::fsm("(ba)*"); F[4].Reverse(); R[4] = g.star(g.str("ab"));
		F[5] = Fsm::MakeFalse(); R[5] = g.none();
	}
	for (int i = 0; i < 3; ++i) { w.f[i] = F[which * 3 + i]; w.l[i] = R[which * 3 + i]; w.known[i] = true; }
}
static void run(int which, const std::vector<int>& first, int depth) {
	std::vector<int> seq(depth, 0);
	for (size_t d = 0; d < first.size(); ++d) seq[d] = first[d];
	for (;;) {
		W w;
		initial(w, which);
		if (getenv("P15_SHOW")) { for (int q : seq) fprintf(stderr, "%s; ", text(ops[q]).c_str()); fprintf(stderr, "\n"); }
		for (int q : seq) w.apply(ops[q]);
		mc::ctx().st.transitions += depth;
		++mc::ctx().st.states;
		for (int i = 0; i < 3; ++i) {
			if (!w.known[i]) continue;
			Scanner sc = compile<Scanner>(w.f[i]);
			mc::ProdOpts po; po.replay = false;
			std::string e = mc::compare(sc, *w.l[i], fx::lang().al, po);
			++mc::ctx().st.replays;
			if (!e.empty()) {
				std::string h;
				for (int q : seq) h += text(ops[q]) + "; ";
				mc::violation(h + "f" + char('0' + i) + ": " + e);
				return;
			}
		}
		int p = depth - 1;
		while (p >= (int)first.size() && ++seq[p] == (int)ops.size()) seq[p--] = 0;
		if (p < (int)first.size()) break;
	}
	++mc::ctx().st.nontrivial;
}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	bool deep = mc::ctx().thorough, small = getenv("P15_SMALL");
	K = box::all();
	makeOps();
	int depth = small ? (deep ? 3 : 2) : deep ? 4 : 3;
	std::vector<std::pair<int, int>> pairs{{3, 1}};
	if (deep) pairs.push_back({0, 2});
	size_t N = ops.size();
	// short histories with the complete behaviour
	mc::phase("short", K.size() * N, [&](uint64_t i) { return K[i / N].name + ": " + opText(ops[i % N]) + " and every operation, complete behaviour"; }, [&](uint64_t i) {
		box::fullPrint = true;
		for (auto& p : pairs) histories(K[i / N], p.first, p.second, {(int)(i % N)}, 2);
	});
	if (depth > 2) mc::phase("history", K.size() * N, [&](uint64_t i) { return K[i / N].name + ": " + opText(ops[i % N]) + " and every " + std::to_string(depth - 1) + " operations"; }, [&](uint64_t i) {
		box::fullPrint = false;
		for (auto& p : pairs) histories(K[i / N], p.first, p.second, {(int)(i % N)}, depth);
		box::fullPrint = true;
	});
	auto automata = [&](const char* name, bool reduced, int len) {
		fa::make(deep, reduced);
		size_t M = fa::ops.size();
		mc::phase(name, 2 * M * M, [&](uint64_t i) { return "start " + std::to_string(i / M / M) + ": " + fa::text(fa::ops[i / M % M]) + ", " + fa::text(fa::ops[i % M]) + (len > 2 ? " and every operation" : ""); },
			[&](uint64_t i) { fa::run((int)(i / M / M), {(int)(i / M % M), (int)(i % M)}, len); });
	};
	automata("automata", false, 2);
	if (deep && !small) automata("automata, longer", false, 3);
	else if (!small || deep) automata("automata, reduced", true, 3);
	return mc::finish();
}
