// Property-based test runner: choice-tape generation, forked workers, shrinking, replay and evidence.
// Every random decision of a case is an integer drawn from a tape; a run is a pure function of
// (VERIF_SEED, property, law, case index) and the code under test.
#pragma once
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
inline uint64_t mix(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
	return mix(h);
}
inline std::string format(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}

struct Failure { std::string msg; };
struct Discard {};

// deterministic noise stream derived from one tape entry (used for long sensor noise sequences)
struct Noise {
	uint64_t s;
	explicit Noise(uint64_t seed) : s(mix(seed ^ 0xABCDEF)) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	double uni() { return double(next() >> 11) / 9007199254740992.0; }
	double gauss() { double u = uni(), v = uni(); if (u < 1e-300) { u = 1e-300; } return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); }
	// bounded, roughly normal
	double tri() { return uni() + uni() + uni() - 1.5; }
};

class Gen
{
public:
	Gen(uint64_t seed) : _seed(seed), _replay(nullptr) {}
	Gen(const std::vector<uint64_t> *tape) : _seed(0), _replay(tape) {}
	std::vector<uint64_t> rec;

	// integer in [0, n-1]; 0 is the simplest
	uint64_t below(uint64_t n)
	{
		uint64_t v;
		if (n <= 1) { v = 0; }
		else if (_replay) { v = rec.size() < _replay->size() ? (*_replay)[rec.size()] : 0; if (v >= n) { v = n - 1; } }
		else { _seed += 0x9E3779B97F4A7C15ull; v = mix(_seed) % n; }
		rec.push_back(v);
		if (_mirror && rec.size() < MIRROR_CAP) { _mirror[rec.size()] = v; _mirror[0] = rec.size(); }
		return v;
	}
	// copy of the tape in shared memory, so that the choices of a crashing case survive it
	static constexpr size_t MIRROR_CAP = 1u << 20;
	void mirrorTo(uint64_t *m) { _mirror = m; }
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
	bool chance(double p) { return below(10000) >= uint64_t(10000 - p * 10000); }
	double unit() { return double(below(1ull << 40)) / double((1ull << 40) - 1); }
	double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
	// shrinks to 0
	double sym(double m)
	{
		uint64_t k = below(1ull << 40);
		double a = double((k + 1) >> 1) / double(1ull << 39) * m;
		return (k & 1) ? a : -a;
	}
	double logu(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
	uint64_t seed() { return below(1ull << 40); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template <class T> const T &pick(const std::vector<T> &l) { return l[below(l.size())]; }
	// standard normal
	double gauss() { double u = unit(), v = unit(); if (u < 1e-12) { u = 1e-12; } return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); }
	// magnitude spread over decades with a sign; shrinks to the smallest
	double signedLog(double lo, double hi) { double s = below(2) ? -1 : 1; return s * logu(lo, hi); }
	// any float value incl. special ones
	float anyFloat()
	{
		switch (below(8)) {
		case 0: return 0.f;
		case 1: return (float)sym(10);
		case 2: return (float)signedLog(1e-6, 1e6);
		case 3: return pick<float>({NAN, INFINITY, -INFINITY, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-42f, -0.f, FLT_EPSILON});
		case 4: return (float)signedLog(1e-30, 1e30);
		case 5: { uint32_t b = (uint32_t)below(1ull << 32); float f; memcpy(&f, &b, 4); return f; }
		default: return (float)sym(1);
		}
	}
private:
	uint64_t _seed;
	const std::vector<uint64_t> *_replay;
	uint64_t *_mirror{nullptr};
};

struct Stats {
	uint64_t evals{0}, discards{0}, nontrivial{0};
	std::map<std::string, uint64_t> cls;
	std::map<std::string, double> maxima;
	std::set<uint64_t> hashes;
	std::vector<std::string> samples;
};

class Ctx
{
public:
	Ctx(Gen &gen, bool describe, bool thorough_) : g(gen), describing(describe), thorough(thorough_) {}
	Gen &g;
	bool describing;
	bool thorough;
	bool isNontrivial{false};
	std::string desc;
	std::map<std::string, uint64_t> classes;
	std::map<std::string, double> maxima;
	std::set<std::string> knownHits;

	void nontrivial(bool b = true) { if (b) { isNontrivial = true; } }
	void cls(const std::string &n) { classes[n]++; }
	void cls(bool b, const std::string &n) { if (b) { classes[n]++; } }
	void worst(const std::string &n, double v) { auto it = maxima.find(n); if (it == maxima.end() || it->second < v) { maxima[n] = v; } }
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!describing || desc.size() > 6000) { return; }
		va_list ap; va_start(ap, fmt); char buf[2048]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); desc += buf; desc += "; ";
	}
	[[noreturn]] void discard() { throw Discard(); }
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		va_list ap; va_start(ap, fmt); char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); throw Failure{buf};
	}
	// |a-b| <= tol (fails on NaN); records the worst ratio error/tolerance under `what`
	void close(double a, double b, double tol, const char *what)
	{
		double e = std::fabs(a - b);
		if (!(e <= tol)) { fail("%s: got %.9g, expected %.9g (|diff| %.3g > tolerance %.3g)", what, a, b, e, tol); }
		if (tol > 0) { worst(what, e / tol); }
	}
};
#define PBT_CHECK(c, cond, ...) do { if (!(cond)) { (c).fail(__VA_ARGS__); } } while (0)

struct Law {
	std::string name;
	uint64_t quick, thorough;
	std::function<void(Ctx &)> fn;
};
inline std::vector<Law> &laws() { static std::vector<Law> l; return l; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, std::function<void(Ctx &)> f) { laws().push_back({n, q, t, f}); } };
#define LAW(ident, quick, thorough) \
	static void law_##ident(pbt::Ctx &c); \
	static pbt::Reg reg_##ident(#ident, quick, thorough, law_##ident); \
	static void law_##ident(pbt::Ctx &c)

struct Outcome { enum Kind { PASS, DISCARD, FAIL, CRASH, HANG } kind; std::string msg; };

struct Shared { volatile int stop; volatile int failed[64]; volatile uint64_t law[64], idx[64]; volatile uint64_t startedAt[64]; };

struct Opts {
	std::string id, tier{"quick"}, evidence, replayDir{"replays"}, onlyLaw, replayFile, findings{"known_findings.txt"};
	uint64_t seed{1}; double scale{1}; int64_t oneIdx{-1}; int jobs{8}; double budget{780}; bool verbose{false};
	std::string rule, level{"exploration"};
};

inline double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void armCpuLimit(int sec)
{
	struct itimerval it {}; it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr);
}
constexpr int CASE_CPU_LIMIT_S = 120;

inline std::string jsonEsc(const std::string &s)
{
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else { o += ch; }
	}
	return o;
}

// run one case in this process
inline Outcome runCase(const Law &law, Gen &g, Ctx &c)
{
	try { law.fn(c); return {Outcome::PASS, ""}; }
	catch (Failure &f) { return {Outcome::FAIL, f.msg}; }
	catch (Discard &) { return {Outcome::DISCARD, ""}; }
	catch (std::exception &e) { return {Outcome::FAIL, std::string("exception: ") + e.what()}; }
}

struct ForkedResult { Outcome o; std::vector<uint64_t> tape; std::string desc; };

// run one tape in a child process
inline ForkedResult runForked(const Law &law, const std::vector<uint64_t> &tape, bool thorough, bool quiet = true, uint64_t seedIfNoTape = 0, bool useSeed = false)
{
	static uint64_t *mirror = (uint64_t *)mmap(nullptr, Gen::MIRROR_CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mirror[0] = 0;
	int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
		armCpuLimit(CASE_CPU_LIMIT_S);
		Gen g = useSeed ? Gen(seedIfNoTape) : Gen(&tape);
		g.mirrorTo(mirror);
		Ctx c(g, true, thorough);
		Outcome o = runCase(law, g, c);
		std::string out = format("%d\n%zu\n", (int)o.kind, g.rec.size());
		for (auto v : g.rec) { out += format("%" PRIu64 "\n", v); }
		out += format("%zu\n", o.msg.size()) + o.msg + "\n" + c.desc;
		size_t off = 0;
		while (off < out.size()) { ssize_t w = write(p[1], out.data() + off, out.size() - off); if (w <= 0) { break; } off += w; }
		_exit(0);
	}
	close(p[1]);
	std::string in; char buf[65536]; ssize_t r;
	while ((r = read(p[0], buf, sizeof buf)) > 0) { in.append(buf, r); }
	close(p[0]);
	int st = 0; waitpid(pid, &st, 0);
	ForkedResult res;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !in.empty()) {
		std::istringstream is(in); int k; size_t n; is >> k >> n; res.tape.resize(n);
		for (auto &v : res.tape) { is >> v; }
		size_t m; is >> m; is.get(); std::string msg(m, ' '); is.read(&msg[0], m); is.get();
		std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
		res.o = {(Outcome::Kind)k, msg}; res.desc = rest;
	} else {
		res.tape.assign(mirror + 1, mirror + 1 + mirror[0]);
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { res.o = {Outcome::HANG, format("no result within %d s of CPU time", CASE_CPU_LIMIT_S)}; }
		else if (WIFSIGNALED(st)) { res.o = {Outcome::CRASH, format("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))}; }
		else { res.o = {Outcome::CRASH, format("terminated with exit code %d (sanitizer report or abort)", WEXITSTATUS(st))}; }
	}
	return res;
}
inline bool bad(const Outcome &o) { return o.kind == Outcome::FAIL || o.kind == Outcome::CRASH || o.kind == Outcome::HANG; }

inline std::vector<uint64_t> shrink(const Law &law, std::vector<uint64_t> tape, bool thorough, Outcome &o, double maxSeconds, int maxEvals, int &evals)
{
	const double t0 = wall();
	evals = 0;
	auto better = [&](std::vector<uint64_t> cand) {
		if (evals >= maxEvals || wall() - t0 > maxSeconds) { return false; }
		evals++;
		ForkedResult r = runForked(law, cand, thorough);
		if (!bad(r.o)) { return false; }
		cand = r.tape;
		// accept only if simpler
		if (cand.size() > tape.size() || (cand.size() == tape.size() && !(cand < tape))) { return false; }
		tape = cand; o = r.o; return true;
	};
	bool progress = true;
	while (progress && evals < maxEvals && wall() - t0 < maxSeconds) {
		progress = false;
		for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= tape.size();) {
				auto cand = tape; cand.erase(cand.begin() + i, cand.begin() + i + len);
				if (better(cand)) { progress = true; } else { i += len; }
				if (evals >= maxEvals || wall() - t0 > maxSeconds) { return tape; }
			}
			for (size_t i = 0; i < tape.size(); i += len) {
				auto cand = tape; bool ch = false;
				for (size_t j = i; j < std::min(i + len, tape.size()); j++) { if (cand[j]) { cand[j] = 0; ch = true; } }
				if (ch && better(cand)) { progress = true; }
			}
			if (len == 1) { break; }
		}
		for (size_t i = 0; i < tape.size(); i++) {
			uint64_t lo = 0;
			for (int k = 0; k < 8 && i < tape.size() && tape[i] > lo; k++) {
				auto cand = tape; cand[i] = lo + (tape[i] - lo) / 2;
				if (cand[i] == tape[i]) { break; }
				if (better(cand)) { progress = true; } else { lo = cand[i] + 1; }
			}
		}
	}
	return tape;
}

inline std::set<std::string> loadKnown(const std::string &file, const std::string &id)
{
	std::set<std::string> k; std::ifstream f(file); std::string l;
	while (std::getline(f, l)) {
		if (l.rfind("known:", 0) != 0 || l.find("property=" + id + " ") == std::string::npos) { continue; }
		auto p = l.find("key="); if (p == std::string::npos) { continue; }
		auto e = l.find(' ', p); k.insert(l.substr(p + 4, e == std::string::npos ? e : e - p - 4));
	}
	return k;
}
inline std::set<std::string> &knownSet() { static std::set<std::string> s; return s; }
// true when `key` is listed in the known-findings file for this property: the caller then skips the case it identifies
inline bool known(Ctx &c, const std::string &key) { if (!knownSet().count(key)) { return false; } c.knownHits.insert(key); return true; }

inline uint64_t caseSeed(const Opts &o, const Law &l, uint64_t idx)
{
	return mix(mix(o.seed * 1000003 + hashStr(o.id)) ^ hashStr(l.name) ^ mix(idx + 77));
}

inline int run(const char *id, const char *rule, int argc, char **argv)
{
	Opts o; o.id = id; o.rule = rule;
	if (getenv("VERIF_SEED")) { o.seed = strtoull(getenv("VERIF_SEED"), nullptr, 10); }
	if (getenv("VERIF_TIER")) { o.tier = getenv("VERIF_TIER"); }
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return std::string(argv[++i]); };
		if (a == "--tier") { o.tier = nx(); } else if (a == "--seed") { o.seed = strtoull(nx().c_str(), nullptr, 10); }
		else if (a == "--evidence") { o.evidence = nx(); } else if (a == "--replays") { o.replayDir = nx(); }
		else if (a == "--law") { o.onlyLaw = nx(); } else if (a == "--replay") { o.replayFile = nx(); }
		else if (a == "--scale") { o.scale = atof(nx().c_str()); } else if (a == "--one") { o.oneIdx = atoll(nx().c_str()); }
		else if (a == "--jobs") { o.jobs = atoi(nx().c_str()); } else if (a == "--budget") { o.budget = atof(nx().c_str()); }
		else if (a == "--findings") { o.findings = nx(); } else if (a == "-v") { o.verbose = true; }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if (o.tier != "thorough") { o.tier = "quick"; }
	const bool thorough = o.tier == "thorough";
	const double t0 = wall();
	o.jobs = std::max(1, std::min(o.jobs, 64));
	knownSet() = loadKnown(o.findings, o.id);
	struct rlimit rl {0, 0}; setrlimit(RLIMIT_CORE, &rl);

	if (!o.replayFile.empty()) {
		std::ifstream f(o.replayFile); std::string w, lawName; size_t n = 0; std::vector<uint64_t> tape; std::string tier;
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream is(line); is >> w;
			if (w == "law") { is >> lawName; }
			else if (w == "tier") { is >> tier; }
			else if (w == "tape") { is >> n; tape.resize(n); for (auto &v : tape) { is >> v; } }
		}
		for (auto &l : laws()) if (l.name == lawName) {
			ForkedResult r = runForked(l, tape, tier == "thorough", !o.verbose);
			printf("%s\n%s\n", bad(r.o) ? r.o.msg.c_str() : "passes", r.desc.c_str());
			if (bad(r.o)) { printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), o.replayFile.c_str()); return 1; }
			return 0;
		}
		fprintf(stderr, "no law %s\n", lawName.c_str()); return 2;
	}
	if (o.oneIdx >= 0) {
		for (auto &l : laws()) if (l.name == o.onlyLaw) {
			ForkedResult r = runForked(l, {}, thorough, !o.verbose, caseSeed(o, l, o.oneIdx), true);
			printf("kind %d: %s\n%s\n", (int)r.o.kind, r.o.msg.c_str(), r.desc.c_str());
			return bad(r.o);
		}
		return 2;
	}

	// flatten work: case list per law
	struct Work { size_t law; uint64_t n; };
	std::vector<Work> work; uint64_t planned = 0;
	for (size_t i = 0; i < laws().size(); i++) {
		if (!o.onlyLaw.empty() && laws()[i].name != o.onlyLaw) { continue; }
		uint64_t n = (uint64_t)std::max(1.0, (thorough ? laws()[i].thorough : laws()[i].quick) * o.scale);
		work.push_back({i, n}); planned += n;
	}
	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void *)sh, 0, sizeof *sh);
	std::vector<FILE *> files(o.jobs); std::vector<pid_t> pids(o.jobs);
	fflush(stdout); fflush(stderr);
	for (int w = 0; w < o.jobs; w++) {
		files[w] = tmpfile();
		if (!files[w]) { perror("tmpfile"); return 2; }
		pids[w] = fork();
		if (pids[w] < 0) { perror("fork"); return 2; }
		if (pids[w] == 0) {
			if (!o.verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
			std::vector<Stats> st(laws().size()); std::set<std::string> known;
			std::string failMsg; bool truncated = false;
			for (auto &wk : work) {
				const Law &law = laws()[wk.law]; Stats &s = st[wk.law];
				for (uint64_t i = w; i < wk.n && !sh->stop; i += o.jobs) {
					if (wall() - t0 > o.budget) { truncated = true; break; }
					sh->law[w] = wk.law; sh->idx[w] = i; sh->failed[w] = 2; // 2 = running
					armCpuLimit(CASE_CPU_LIMIT_S);
					Gen g(caseSeed(o, law, i));
					Ctx c(g, s.samples.size() < 2 || (w == 0 && s.samples.size() < 3), thorough);
					Outcome oc = runCase(law, g, c);
					s.evals++;
					for (auto &m : c.maxima) { auto it = s.maxima.find(m.first); if (it == s.maxima.end() || it->second < m.second) { s.maxima[m.first] = m.second; } }
					if (oc.kind == Outcome::DISCARD) { s.discards++; sh->failed[w] = 0; continue; }
					for (auto &k : c.classes) { s.cls[k.first]++; (void)k; }
					known.insert(c.knownHits.begin(), c.knownHits.end());
					if (c.isNontrivial) {
						uint64_t h = hashStr(law.name); for (auto v : g.rec) { h = mix(h ^ v); }
						s.hashes.insert(h); s.nontrivial++;
						if (c.describing && !c.desc.empty() && s.samples.size() < 3) { s.samples.push_back(c.desc.substr(0, 700)); }
					}
					if (oc.kind == Outcome::FAIL) { fprintf(stderr, "worker case %" PRIu64 ": %s [%s]\n", i, oc.msg.c_str(), c.desc.c_str()); sh->failed[w] = 1; sh->stop = 1; failMsg = oc.msg; break; }
					sh->failed[w] = 0;
				}
				if (sh->stop || truncated) { break; }
			}
			armCpuLimit(0);
			FILE *f = files[w];
			auto ps = [&](const std::string &s) { fprintf(f, "%zu ", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); };
			fprintf(f, "%d\n", truncated ? 1 : 0);
			fprintf(f, "%zu\n", known.size()); for (auto &k : known) { ps(k); }
			for (auto &s : st) {
				fprintf(f, "%" PRIu64 " %" PRIu64 " %" PRIu64 " %zu %zu %zu %zu\n", s.evals, s.discards, s.nontrivial, s.cls.size(), s.maxima.size(), s.hashes.size(), s.samples.size());
				for (auto &k : s.cls) { fprintf(f, "%" PRIu64 " ", k.second); ps(k.first); }
				for (auto &k : s.maxima) { fprintf(f, "%.9g ", k.second); ps(k.first); }
				for (auto h : s.hashes) { fprintf(f, "%" PRIu64 "\n", h); }
				for (auto &x : s.samples) { ps(x); }
			}
			fflush(f); _exit(0);
		}
	}
	bool truncated = false; std::vector<Stats> tot(laws().size()); std::set<std::string> knownHits;
	struct Fl { size_t law; uint64_t idx; std::string how; }; std::vector<Fl> fl;
	for (int w = 0; w < o.jobs; w++) {
		int st = 0; waitpid(pids[w], &st, 0);
		const bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		if (crashed) {
			fl.push_back({(size_t)sh->law[w], sh->idx[w], "crash"}); sh->stop = 1; continue;
		}
		if (sh->failed[w] == 1) { fl.push_back({(size_t)sh->law[w], sh->idx[w], "fail"}); }
		FILE *f = files[w]; rewind(f);
		auto gs = [&]() { size_t n = 0; if (fscanf(f, "%zu", &n) != 1) { return std::string(); } fgetc(f); std::string s(n, ' '); size_t r = fread(&s[0], 1, n, f); s.resize(r); return s; };
		int tr = 0; size_t nk = 0; if (fscanf(f, "%d %zu", &tr, &nk) != 2) { fprintf(stderr, "worker result missing\n"); return 2; }
		truncated |= tr; for (size_t i = 0; i < nk; i++) { knownHits.insert(gs()); }
		for (auto &s : tot) {
			uint64_t e, d, n; size_t a, b, h, m;
			if (fscanf(f, "%" SCNu64 " %" SCNu64 " %" SCNu64 " %zu %zu %zu %zu", &e, &d, &n, &a, &b, &h, &m) != 7) { fprintf(stderr, "worker result short\n"); return 2; }
			s.evals += e; s.discards += d; s.nontrivial += n;
			for (size_t i = 0; i < a; i++) { uint64_t v; if (fscanf(f, "%" SCNu64, &v) != 1) { v = 0; } auto k = gs(); s.cls[k] += v; }
			for (size_t i = 0; i < b; i++) { char t[64]; double v = fscanf(f, "%63s", t) == 1 ? atof(t) : 0; auto k = gs(); auto it = s.maxima.find(k); if (it == s.maxima.end() || it->second < v) { s.maxima[k] = v; } }
			for (size_t i = 0; i < h; i++) { uint64_t v; if (fscanf(f, "%" SCNu64, &v) == 1) { s.hashes.insert(v); } }
			for (size_t i = 0; i < m; i++) { auto x = gs(); if (s.samples.size() < 3) { s.samples.push_back(x); } }
		}
		fclose(f);
	}

	int violations = 0; std::string vmsg; bool unreproduced = false;
	std::sort(fl.begin(), fl.end(), [](const Fl & a, const Fl & b) { return a.law != b.law ? a.law < b.law : a.idx < b.idx; });
	for (auto &x : fl) {
		const Law &law = laws()[x.law];
		ForkedResult r = runForked(law, {}, thorough, true, caseSeed(o, law, x.idx), true);
		if (!bad(r.o)) { fprintf(stderr, "case %s/%" PRIu64 " failed once (%s) and did not fail again\n", law.name.c_str(), x.idx, x.how.c_str()); unreproduced = true; continue; }
		std::vector<uint64_t> tape = r.tape; Outcome oc = r.o; int evals = 0;
		tape = shrink(law, tape, thorough, oc, 60, 400, evals);
		int rep = 0; ForkedResult last;
		for (int k = 0; k < 3; k++) { last = runForked(law, tape, thorough); rep += bad(last.o); }
		if (rep == 0) { fprintf(stderr, "shrunk case of %s does not reproduce\n", law.name.c_str()); unreproduced = true; continue; }
		std::string cmd = "mkdir -p '" + o.replayDir + "'"; if (system(cmd.c_str())) { fprintf(stderr, "cannot create replay dir\n"); }
		std::string path = o.replayDir + "/" + o.id + "-" + law.name + ".replay";
		FILE *f = fopen(path.c_str(), "w");
		if (f) {
			fprintf(f, "property %s\nlaw %s\ntier %s\n", o.id.c_str(), law.name.c_str(), o.tier.c_str());
			fprintf(f, "# found at --seed %" PRIu64 " --law %s --one %" PRIu64 "\n", o.seed, law.name.c_str(), x.idx);
			fprintf(f, "tape %zu", tape.size()); for (auto v : tape) { fprintf(f, " %" PRIu64, v); }
			fprintf(f, "\n# %s\n# reproduced %d/3, shrink evaluations %d\n# case: %s\n", last.o.msg.c_str(), rep, evals, last.desc.c_str());
			fclose(f);
		}
		printf("law %s case %" PRIu64 ": %s\n", law.name.c_str(), x.idx, oc.msg.c_str());
		printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), path.c_str());
		violations++; vmsg = law.name + ": " + oc.msg;
		break;
	}
	for (auto &k : knownSet()) { printf("KNOWN-FINDING: property=%s %s%s\n", o.id.c_str(), k.c_str(), knownHits.count(k) ? "" : " (listed; not generated in this run)"); }

	uint64_t ev = 0, nt = 0, dis = 0; std::set<uint64_t> all; std::vector<std::string> samples;
	for (size_t i = 0; i < tot.size(); i++) {
		ev += tot[i].evals; dis += tot[i].discards; nt += tot[i].nontrivial; all.insert(tot[i].hashes.begin(), tot[i].hashes.end());
		for (size_t k = 0; k < tot[i].samples.size() && k < 2; k++) { samples.push_back(laws()[i].name + ": " + tot[i].samples[k]); }
	}
	const double wl = wall() - t0;
	if (!o.evidence.empty()) {
		FILE *f = fopen(o.evidence.c_str(), "w");
		if (!f) { perror(o.evidence.c_str()); return 2; }
		fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %" PRIu64 ", \"level\": \"%s\",\n \"coverage\": {\"evaluations\": %" PRIu64 ", \"distinct_nontrivial\": %zu, \"discarded\": %" PRIu64 ", \"planned\": %" PRIu64 ", \"truncated_by_time\": %s,\n  \"rule\": \"%s\",\n  \"samples\": [",
			o.id.c_str(), o.tier.c_str(), o.seed, o.level.c_str(), ev, all.size(), dis, planned, truncated ? "true" : "false", jsonEsc(o.rule).c_str());
		for (size_t i = 0; i < samples.size(); i++) { fprintf(f, "%s\"%s\"", i ? ",\n   " : "", jsonEsc(samples[i]).c_str()); }
		fprintf(f, "],\n  \"laws\": {");
		bool first = true;
		for (auto &wk : work) {
			auto &s = tot[wk.law];
			fprintf(f, "%s\"%s\": {\"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"discarded\": %" PRIu64 ", \"classes\": {", first ? "\n   " : ",\n   ", laws()[wk.law].name.c_str(), s.evals, s.nontrivial, s.discards);
			bool ff = true; for (auto &k : s.cls) { fprintf(f, "%s\"%s\": %" PRIu64, ff ? "" : ", ", jsonEsc(k.first).c_str(), k.second); ff = false; }
			fprintf(f, "}, \"worst_error_over_tolerance\": {"); ff = true;
			for (auto &k : s.maxima) { if (std::isfinite(k.second)) { fprintf(f, "%s\"%s\": %.4g", ff ? "" : ", ", jsonEsc(k.first).c_str(), k.second); ff = false; } }
			fprintf(f, "}}"); first = false;
		}
		fprintf(f, "}},\n \"assumptions\": [\"PX4/Matrix replaced by /verif/shim/matrix/math.hpp where the code includes matrix/math.hpp\", \"gcc on x86-64\"],\n \"violations\": %d, \"first_violation\": \"%s\", \"wall_s\": %.2f}\n", violations, jsonEsc(vmsg).c_str(), wl);
		fclose(f);
	}
	printf("%s %s seed %" PRIu64 ": %" PRIu64 " cases, %zu distinct non-trivial, %" PRIu64 " discarded, %.1f s%s%s\n", o.id.c_str(), o.tier.c_str(), o.seed, ev, all.size(), dis, wl, truncated ? " (time budget reached)" : "", unreproduced ? " (an unreproducible failure was seen)" : "");
	if (o.verbose) for (auto &wk : work) {
		auto &s = tot[wk.law]; printf("  %s: %" PRIu64 " cases %" PRIu64 " nontrivial %" PRIu64 " discarded\n", laws()[wk.law].name.c_str(), s.evals, s.nontrivial, s.discards);
		for (auto &k : s.cls) { printf("     class %-40s %" PRIu64 "\n", k.first.c_str(), k.second); }
		for (auto &k : s.maxima) { printf("     worst %-40s %.4g\n", k.first.c_str(), k.second); }
	}
	return violations ? 1 : 0;
}
} // namespace pbt
