// Verification harness core: random source, verdicts, evidence counters, log capture, stuck detection.
// Include it before any header of the library.
#ifndef VH_H_
#define VH_H_

#ifndef ST_ASIO_CUSTOM_LOG
 #ifndef VH_LIBRARY_LOG
 #define ST_ASIO_CUSTOM_LOG
 #endif
#endif

#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#define VH_NOINSTR __attribute__((no_instrument_function))

namespace vh
{

typedef unsigned long long u64;

inline u64 mix(u64 z) {z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);}
inline u64 hash_str(const char* s, size_t n, u64 h = 1469598103934665603ULL) {for (size_t i = 0; i < n; ++i) {h ^= (unsigned char) s[i]; h *= 1099511628211ULL;} return h;}
inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ULL) {return hash_str(s.data(), s.size(), h);}
inline u64 hmix(u64 h, u64 v) {return mix(h ^ mix(v));}

struct Rng
{
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() {s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);}
	u64 below(u64 n) {return n ? next() % n : 0;}
	long range(long a, long b) {return a + (long) below((u64) (b - a + 1));} // inclusive
	bool chance(unsigned num, unsigned den) {return below(den) < num;}
	template<typename T> const T& pick(const std::vector<T>& v) {return v[below(v.size())];}
	// sizes biased towards small values and boundaries
	size_t size(size_t max) {switch (below(6)) {case 0: return 0; case 1: return below(4 < max ? 4 : max + 1); case 2: case 3: return below(64 < max ? 64 : max + 1); case 4: return max - below(4 < max ? 4 : max + 1); default: return below(max + 1);}}
	std::string bytes(size_t n) {std::string r(n, '\0'); for (size_t i = 0; i < n; ++i) r[i] = (char) next(); return r;}
};

inline std::string esc(const std::string& s)
{
	std::string o;
	for (size_t i = 0; i < s.size(); ++i)
	{
		unsigned char c = (unsigned char) s[i];
		if (c == '"' || c == '\\') {o += '\\'; o += (char) c;}
		else if (c < 0x20 || c >= 0x7f) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;}
		else o += (char) c;
	}
	return o;
}
inline std::string hex(const std::string& s, size_t lim = 48)
{
	std::string o; char b[4];
	for (size_t i = 0; i < s.size() && i < lim; ++i) {snprintf(b, sizeof b, "%02x", (unsigned char) s[i]); o += b;}
	if (s.size() > lim) o += "...(" + std::to_string(s.size()) + ")";
	return o;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;}
inline double now() {return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}

struct Global
{
	std::function<std::string()> on_hang; // what the watchdog prints
	std::mutex mu;
	std::map<std::string, u64> counters;
	std::unordered_set<u64> distinct;
	std::vector<std::string> samples;
	std::deque<std::string> log;
	std::atomic<u64> progress;
	std::atomic<int> nviol;
	std::atomic<bool> inconclusive;
	int out_fd;
	u64* cur; // mmapped: [0]=current case + 1, [1]=cases finished
	u64 seed, case_seed; std::atomic<u64> case_idx;
	bool thorough, verbose;
	u64 evaluations;
	std::atomic<double> case_start; double case_limit;
	std::string rule;
	Global() : progress(0), nviol(0), inconclusive(false), out_fd(2), cur(NULL), seed(1), case_seed(0), case_idx(0), thorough(false), verbose(false), evaluations(0), case_start(0), case_limit(150) {}
};
inline Global& g() {static Global* x = new Global; return *x;}

inline void tick() {g().progress.fetch_add(1, std::memory_order_relaxed);}
inline bool failed() {return g().nviol.load() > 0;}
inline void out(const std::string& s) {std::string l = s + "\n"; ssize_t r = write(g().out_fd, l.data(), l.size()); (void) r;}

inline void dump_log() {std::lock_guard<std::mutex> l(g().mu); for (size_t i = 0; i < g().log.size(); ++i) fprintf(stderr, "  log: %s\n", g().log[i].c_str()); fflush(stderr);}
inline void violation(const std::string& key, const std::string& detail)
{
	int n = g().nviol.fetch_add(1);
	if (n >= 10) return;
	out("{\"v\":\"" + esc(key) + "\",\"detail\":\"" + esc(detail) + "\",\"case\":" + std::to_string(g().case_idx.load()) + "}");
	fprintf(stderr, "VH-VIOLATION %s: %s (case %llu)\n", key.c_str(), detail.c_str(), g().case_idx.load());
	if (0 == n) dump_log();
}
inline void count(const char* name, u64 n = 1) {std::lock_guard<std::mutex> l(g().mu); g().counters[name] += n;}
inline void count_max(const char* name, u64 n) {std::lock_guard<std::mutex> l(g().mu); u64& c = g().counters[name]; if (n > c) c = n;}
inline void distinct(u64 h) {std::lock_guard<std::mutex> l(g().mu); if (g().distinct.size() < 2000000) g().distinct.insert(h);}
inline void sample(const std::string& s) {std::lock_guard<std::mutex> l(g().mu); if (g().samples.size() < 4) g().samples.push_back(s.substr(0, 600));}
inline bool want_sample() {std::lock_guard<std::mutex> l(g().mu); return g().samples.size() < 4;}

inline void summary(const char* state)
{
	std::lock_guard<std::mutex> l(g().mu);
	std::string s = "{\"end\":\"" + std::string(state) + "\",\"evaluations\":" + std::to_string(g().evaluations) + ",\"distinct\":" + std::to_string(g().distinct.size()) + ",\"counters\":{";
	bool first = true;
	for (auto& c : g().counters) {s += (first ? "\"" : ",\"") + esc(c.first) + "\":" + std::to_string(c.second); first = false;}
	s += "},\"samples\":["; first = true;
	for (auto& c : g().samples) {s += (first ? "\"" : ",\"") + esc(c) + "\""; first = false;}
	s += "],\"rule\":\"" + esc(g().rule) + "\"}";
	out(s);
	// the distinct hashes, so that the runner can merge them over processes
	const char* p = getenv("VH_HASHES");
	if (p) {FILE* f = fopen(p, "wb"); if (f) {for (u64 h : g().distinct) fwrite(&h, sizeof h, 1, f); fclose(f);}}
}
inline void die() {if (getenv("VH_PAUSE")) for (;;) sleep(1); summary("stopped"); fflush(NULL); _exit(failed() ? 10 : 20);} // the process can no longer be trusted to end orderly
inline void inconclusive(const std::string& why) {out("{\"inconclusive\":\"" + esc(why) + "\",\"case\":" + std::to_string(g().case_idx.load()) + "}"); fprintf(stderr, "VH-INCONCLUSIVE %s (case %llu)\n", why.c_str(), g().case_idx.load()); dump_log(); die();}

// are all other threads of this process blocked?
inline bool all_asleep()
{
	DIR* d = opendir("/proc/self/task"); if (!d) return false;
	bool rv = true; long self = syscall(SYS_gettid); struct dirent* e;
	while (rv && (e = readdir(d)))
	{
		long tid = atol(e->d_name); if (tid <= 0 || tid == self) continue;
		char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%ld/stat", tid);
		int fd = open(p, O_RDONLY); if (fd < 0) continue;
		ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) continue; b[n] = 0;
		char* q = strrchr(b, ')'); if (q && q[1] && q[2] != 'S') rv = false;
	}
	closedir(d); return rv;
}

typedef std::function<void(std::function<void()>)> poster;

// wait for cond; if the library makes no progress although its threads demonstrably keep executing other handlers,
// that is a lost wake-up (violation); if its threads are all blocked for good, a deadlock (violation); otherwise inconclusive.
inline bool await(const std::function<bool()>& cond, const poster& post, const std::string& key, const std::function<std::string()>& detail = std::function<std::string()>(), double quiet = 4., int need_probes = 300)
{
	for (int i = 0; i < 50; ++i) {if (cond()) return true; sched_yield();}
	u64 last = g().progress.load(); double t = now();
	for (;;)
	{
		if (cond()) return true;
		usleep(500);
		u64 p = g().progress.load(); double n = now();
		if (p != last) {last = p; t = n; continue;}
		if (n - t < quiet) continue;
		int probes = 0;
		while (probes < need_probes)
		{
			if (cond()) return true;
			if (g().progress.load() != last) break;
			auto done = std::make_shared<std::atomic<bool> >(false);
			post([done]() {*done = true;});
			double b = now(); int asleep = 0;
			while (!*done)
			{
				usleep(now() - b < 1 ? 500 : 20000);
				if (cond()) return true;
				if (now() - b > 20) {asleep = all_asleep() ? asleep + 1 : 0;
					if (asleep >= 200) {violation(key + "/deadlock", "no service thread runs handlers any more, all threads blocked; " + (detail ? detail() : "")); die();}}
				if (now() - b > 100) inconclusive(key + ": service threads do not run a posted handler for 100 s");
			}
			++probes; usleep(10000);
		}
		if (probes >= need_probes && !cond() && g().progress.load() == last)
		{
			violation(key, fmt("no progress while the service threads executed %d further handlers; ", probes) + (detail ? detail() : ""));
			return false;
		}
		last = g().progress.load(); t = now();
	}
}
// plain bounded wait; true if cond became true
inline bool wait_for(const std::function<bool()>& cond, double sec) {double e = now() + sec; while (!cond()) {if (now() > e) return cond(); usleep(500);} return true;}

inline int main(int argc, char** argv, const std::function<void(Rng&)>& one_case, double case_limit = 150)
{
	setvbuf(stderr, NULL, _IOLBF, 0);
	Global& G = g(); const char* e;
	G.case_limit = case_limit;
	if ((e = getenv("VH_OUT"))) G.out_fd = open(e, O_WRONLY | O_CREAT | O_APPEND, 0644);
	static u64 dummy[2]; G.cur = dummy;
	if ((e = getenv("VH_CUR"))) {int fd = open(e, O_RDWR | O_CREAT, 0644); if (fd >= 0 && 0 == ftruncate(fd, 4096)) {void* m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) G.cur = (u64*) m;}}
	if ((e = getenv("VH_SEED"))) G.seed = strtoull(e, NULL, 10);
	if ((e = getenv("VH_TIER"))) G.thorough = 0 == strcmp(e, "thorough");
	G.verbose = NULL != getenv("VH_VERBOSE");
	u64 unit = (e = getenv("VH_UNIT")) ? hash_str(std::string(e)) : 0;
	u64 start = (e = getenv("VH_START")) ? strtoull(e, NULL, 10) : 0, cases = (e = getenv("VH_CASES")) ? strtoull(e, NULL, 10) : 10;
	if ((e = getenv("VH_CASE"))) {start = strtoull(e, NULL, 10); cases = 1;}
	G.case_start = now();
	std::thread([&G]() {for (;;) {usleep(200000); if (now() - G.case_start > G.case_limit) {fprintf(stderr, "VH-WATCHDOG case %llu ran for %.0f s\n", G.case_idx.load(), G.case_limit); {std::function<std::string()> f = G.on_hang; if (f) fprintf(stderr, "%s\n", f().c_str()); const char* w = getenv("VH_HANG_WAIT"); if (w) sleep((unsigned) atoi(w)); inconclusive("hang: watchdog");}}}}).detach();
	for (u64 i = start; i < start + cases && !failed(); ++i)
	{
		G.case_idx = i; G.cur[0] = i + 1; G.case_start = now();
		G.case_seed = mix(mix(G.seed) ^ mix(unit) ^ mix(i * 2654435761ULL));
		Rng r(G.case_seed);
		one_case(r);
		++G.evaluations; G.cur[1] = G.evaluations;
	}
	G.case_start = now() + 1e6;
	summary("done"); fflush(NULL);
	return failed() ? 10 : 0;
}

inline void log_line(const char* lev, const char* f, va_list ap)
{
	char b[2048]; int n = snprintf(b, sizeof b, "%s ", lev); vsnprintf(b + n, sizeof b - n, f, ap);
	std::lock_guard<std::mutex> l(g().mu);
	if (g().verbose) fprintf(stderr, "%.3f %s\n", now(), b);
	if (g().log.size() >= 60) g().log.pop_front();
	g().log.push_back(fmt("%.4f ", now()) + b);
}

} // namespace vh

#ifdef ST_ASIO_CUSTOM_LOG
namespace st_asio_wrapper
{
class unified_out
{
public:
#define VH_LOGF(N) static void N##_out(const char* f, ...) __attribute__((format(printf, 1, 2))) {va_list ap; va_start(ap, f); vh::log_line(#N, f, ap); va_end(ap);}
	VH_LOGF(fatal) VH_LOGF(error) VH_LOGF(warning) VH_LOGF(info) VH_LOGF(debug)
#undef VH_LOGF
};
}
#endif

#endif
