#include "common.hpp"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sanitizer/allocator_interface.h>

bool g_verbose;
uint64_t g_nontrivial;
static std::string g_note;
static volatile long g_live;
static void on_malloc(const volatile void *, size_t) { g_live++; }
static void on_free(const volatile void *p) { if (p) g_live--; }
long live_allocs() { return g_live; }
std::vector<Test> &tests() { static std::vector<Test> t; return t; }

struct Shared { volatile uint64_t test, idx, seed, cases, nontriv, percase[128]; };
static Shared *g_sh;

std::string hex(const uint8_t *p, size_t n) {
	std::string s;
	char t[4];
	for (size_t i = 0; i < n && i < 4096; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; }
	if (n > 4096) s += "...";
	return s;
}
std::string show(const std::string &x) {
	std::string s = "\"";
	char t[8];
	for (size_t i = 0; i < x.size() && i < 2000; i++) {
		unsigned char c = x[i];
		if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char) c;
		else { snprintf(t, sizeof t, "\\x%02x", c); s += t; }
	}
	return s + "\"";
}
void note(const char *fmt, ...) {
	if (!g_verbose) return;
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "INPUT: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
}
void fail(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "FAIL: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	fflush(stderr);
	_exit(77);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ull + b); return r.next(); }

static void one(const Test &t, uint64_t idx, uint64_t seed) {
	Rng r(seed);
	t.fn(idx, r);
}

static void worker(const std::vector<Test> &ts, uint64_t seed, int w, int nw, double deadline) {
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
	struct itimerval it = {{0, 0}, {0, 0}};
	// enumerated cases and random ones take turns, about half of the time each
	std::vector<uint64_t> next(ts.size(), w);
	std::vector<size_t> order;
	for (size_t k = 0; k < ts.size(); k++)
		for (int j = 0; j < ts[k].weight; j++) order.push_back(k);
	uint64_t n = 0;
	auto go = [&](size_t k, uint64_t idx, uint64_t sd) {
		g_sh[w].test = k; g_sh[w].idx = idx; g_sh[w].seed = sd;
		one(ts[k], idx, sd);
		g_sh[w].cases++; g_sh[w].percase[k]++; g_sh[w].nontriv = g_nontrivial;
	};
	double t = now();
	while (t < deadline) {
		bool any = false;
		double t0 = t;
		for (size_t k : order) {
			it.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &it, nullptr);
			for (int j = 0; j < 16; j++, n++) { go(k, ts[k].nexh + n, mix(mix(seed, 77 + w), n)); any = true; }
			if ((t = now()) > deadline) break;
		}
		double lim = std::min(deadline, t + std::max(t - t0, 0.05));
		for (bool left = true; left && t < lim;) {
			left = false;
			for (size_t k = 0; k < ts.size() && t < lim; k++) {
				if (next[k] >= ts[k].nexh) continue;
				left = any = true;
				it.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &it, nullptr);
				for (int j = 0; j < 64 && next[k] < ts[k].nexh; j++, next[k] += nw) go(k, next[k], mix(seed, next[k]));
				t = now();
			}
		}
		if (!any) break;
	}
	_exit(0);
}

int main(int argc, char **argv) {
	if (argc < 3) { fprintf(stderr, "usage: refute run PROP SEED SECS WORKERS DIR | replay PROP TEST IDX SEED\n"); return 2; }
	std::string mode = argv[1], prop = argv[2];
	std::vector<Test> ts;
	for (auto &t : tests()) if (prop == t.prop) ts.push_back(t);
	if (mode == "list") { for (auto &t : ts) printf("%s\n", t.name); return 0; }
	if (ts.empty()) { fprintf(stderr, "no tests for %s\n", prop.c_str()); return 2; }
	if (mode == "replay") {
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
		g_verbose = true;
		for (auto &t : ts)
			if (!strcmp(t.name, argv[3])) {
				alarm(60);
				one(t, strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10));
				printf("replay: no failure\n");
				return 0;
			}
		return 2;
	}
	uint64_t seed = strtoull(argv[3], 0, 10);
	double secs = atof(argv[4]);
	int nw = atoi(argv[5]);
	std::string dir = argv[6];
	g_sh = (Shared *) mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double deadline = now() + secs;
	std::vector<pid_t> pids;
	for (int w = 0; w < nw; w++) {
		pid_t p = fork();
		if (p == 0) {
			int fd = open((dir + "/w" + std::to_string(w) + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 2);
			dup2(fd, 1);
			worker(ts, seed, w, nw, deadline);
		}
		pids.push_back(p);
	}
	int bad = -1, left = nw, badst = 0;
	while (left > 0) {
		int st;
		pid_t p = wait(&st);
		if (p < 0) break;
		int w = -1;
		for (int i = 0; i < nw; i++) if (pids[i] == p) w = i;
		if (w < 0) continue;
		left--;
		pids[w] = 0;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
			bad = w;
			badst = st;
			for (int i = 0; i < nw; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
		}
	}
	uint64_t cases = 0, nt = 0;
	for (int w = 0; w < nw; w++) { cases += g_sh[w].cases; nt += g_sh[w].nontriv; }
	printf("CASES %llu NONTRIVIAL %llu", (unsigned long long) cases, (unsigned long long) nt);
	for (size_t k = 0; k < ts.size(); k++) {
		uint64_t c = 0;
		for (int w = 0; w < nw; w++) c += g_sh[w].percase[k];
		printf(" %s=%llu", ts[k].name, (unsigned long long) c);
	}
	printf("\n");
	if (bad >= 0) {
		printf("BAD %s %llu %llu status=%d signal=%d log=%s/w%d.log\n", ts[g_sh[bad].test].name, (unsigned long long) g_sh[bad].idx,
		    (unsigned long long) g_sh[bad].seed, WIFEXITED(badst) ? WEXITSTATUS(badst) : -1, WIFSIGNALED(badst) ? WTERMSIG(badst) : 0, dir.c_str(), bad);
		return 1;
	}
	return 0;
}
