// Work-item protocol between a harness and the driver (vlib/driver.py).
//
// A harness enumerates work items in phases; item (phase, index) is deterministic.  The driver starts
// N shards (item index % N == shard).  Before each item its number and description go into a small shared
// file, so that after a crash or a hang the driver knows which item was being explored and can re-run it
// alone (--only phase:index).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>

namespace mc {

struct Stats {
	uint64_t states = 0, transitions = 0, replays = 0, items = 0, nontrivial = 0;
	std::map<std::string, uint64_t> extra;
};

struct Ctx {
	int shard = 0, shards = 1;
	bool thorough = false;
	uint64_t seed = 1;
	double deadline = 1e18;     // seconds of wall time for the whole run
	std::string out, only, tmp;
	Stats st;
	std::vector<std::string> samples;
	struct Viol { std::string item, desc, msg; };
	std::vector<Viol> viols;
	std::string curItem, curDesc;
	char* cur = nullptr;
	bool truncated = false;
	double t0 = 0;
	std::vector<std::pair<std::string, uint64_t>> phases; // name -> items in the phase (all shards)
};

inline Ctx& ctx() { static Ctx c; return c; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string esc(const std::string& s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
/// printable form of a byte string (the marks are shown as ^ and $ by the callers)
inline std::string show(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

inline void init(int argc, char** argv) {
	Ctx& c = ctx();
	c.t0 = now();
	std::string curFile;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--shard") c.shard = atoi(v.c_str());
		else if (k == "--shards") c.shards = atoi(v.c_str());
		else if (k == "--tier") c.thorough = (v == "thorough");
		else if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--deadline") c.deadline = atof(v.c_str());
		else if (k == "--out") c.out = v;
		else if (k == "--only") c.only = v;
		else if (k == "--tmp") c.tmp = v;
		else if (k == "--cur") curFile = v;
	}
	if (!curFile.empty()) {
		int fd = open(curFile.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd >= 0 && ftruncate(fd, 4096) == 0)
			c.cur = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (fd >= 0) close(fd);
		if (c.cur == MAP_FAILED) c.cur = nullptr;
	}
}

inline void violation(const std::string& msg) {
	Ctx& c = ctx();
	if (c.viols.size() < 400)
		c.viols.push_back({c.curItem, c.curDesc, msg});
	if (!c.only.empty()) fprintf(stderr, "item %s [%s]: %s\n", c.curItem.c_str(), c.curDesc.c_str(), msg.c_str());
}

inline void sample(const std::string& s) { if (ctx().samples.size() < 12) ctx().samples.push_back(s); }
inline void count(const std::string& k, uint64_t n = 1) { ctx().st.extra[k] += n; }

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };

/// Enumerates a phase: n items, desc(i) names item i, fn(i) explores it.
/// fn reports through violation() or throws; any escaping exception is a violation.
inline void phase(const std::string& name, uint64_t n,
                  const std::function<std::string(uint64_t)>& desc,
                  const std::function<void(uint64_t)>& fn) {
	Ctx& c = ctx();
	c.phases.push_back({name, n});
	uint64_t from = 0, step = 1, to = n;
	if (!c.only.empty()) {
		size_t p = c.only.rfind(':');
		if (c.only.substr(0, p) != name) return;
		from = strtoull(c.only.c_str() + p + 1, 0, 10);
		to = from + 1;
		if (from >= n) { fprintf(stderr, "no such item\n"); return; }
	} else {
		from = c.shard; step = c.shards;
	}
	double ph0 = now();
	for (uint64_t i = from; i < to; i += step) {
		if (c.only.empty() && now() - c.t0 > c.deadline) { c.truncated = true; break; }
		c.curItem = name + ":" + std::to_string(i);
		c.curDesc = desc(i);
		if (c.cur) {
			std::string s = c.curItem + "\t" + c.curDesc;
			if (s.size() > 4000) s.resize(4000);
			memcpy(c.cur + 8, s.c_str(), s.size() + 1);
			__atomic_add_fetch((uint64_t*)c.cur, 1, __ATOMIC_SEQ_CST);
		}
		try { fn(i); }
		catch (const std::exception& e) { violation(std::string("unexpected exception: ") + e.what()); }
		catch (...) { violation("unexpected unknown exception"); }
		++c.st.items;
	}
	if (getenv("MC_TRACE")) fprintf(stderr, "phase %s n=%llu %.2fs\n", name.c_str(), (unsigned long long)n, now() - ph0);
}

inline int finish() {
	Ctx& c = ctx();
	if (c.cur) { strcpy(c.cur + 8, "\tdone"); }
	FILE* f = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
	if (!f) return 3;
	fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"replays\":%llu,\"items\":%llu,\"nontrivial\":%llu,\"truncated\":%s,\n",
		(unsigned long long)c.st.states, (unsigned long long)c.st.transitions, (unsigned long long)c.st.replays,
		(unsigned long long)c.st.items, (unsigned long long)c.st.nontrivial, c.truncated ? "true" : "false");
	fprintf(f, "\"extra\":{");
	bool first = true;
	for (auto& e : c.st.extra) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
	fprintf(f, "},\n\"phases\":{");
	first = true;
	for (auto& e : c.phases) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
	fprintf(f, "},\n\"samples\":[");
	first = true;
	for (auto& s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
	fprintf(f, "],\n\"violations\":[");
	first = true;
	for (auto& v : c.viols) {
		fprintf(f, "%s\n{\"item\":\"%s\",\"desc\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",",
			esc(v.item).c_str(), esc(v.desc).c_str(), esc(v.msg).c_str());
		first = false;
	}
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	fflush(0);
	// Skip static destruction: results are already out.
	_exit(0);
}

} // namespace mc
