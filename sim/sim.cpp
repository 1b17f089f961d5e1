#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>

namespace sim {

static const size_t MAXCH = 1u << 20;
struct Counter { char key[56]; long v; };
struct Shared {
  uint64_t nch;
  uint64_t hash;
  uint64_t ticks;
  uint64_t events;
  uint64_t simus;
  int verdict;              // 0 running, 1 ok, 2 violation
  int nontriv;
  char cls[160];
  char msg[4096];
  char samp[2048];
  uint32_t ncnt;
  Counter cnt[160];
  uint32_t nstates;
  uint64_t states[512];
  uint32_t ch[MAXCH];
};
static Shared* S;
static std::string g_prop;
static bool g_replay = false;
static std::vector<uint32_t> g_in;
static uint64_t g_rng[4];
static FILE* g_trace = nullptr;
bool g_active = false;
uint64_t g_ticks = 0, g_tick_limit = ~0ull;

static inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd() {
  uint64_t r = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
  g_rng[2] ^= g_rng[0]; g_rng[3] ^= g_rng[1]; g_rng[1] ^= g_rng[2]; g_rng[0] ^= g_rng[3];
  g_rng[2] ^= t; g_rng[3] = rotl(g_rng[3], 45);
  return r;
}
static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static inline void mix(uint64_t v) {
  uint64_t h = S->hash;
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0x100000001B3ull;
  S->hash = h;
}
void hash_bits(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  mix(h);
}
uint64_t trace_hash() { return S->hash; }
bool tracing() { return g_trace != nullptr; }
const std::string& prop() { return g_prop; }
void nontrivial() { S->nontriv = 1; }

static uint32_t take(uint32_t n, uint32_t (*gen)(uint32_t, double), double par, const char* tag) {
  uint32_t v;
  uint64_t i = S->nch;
  if (i >= MAXCH) violate("harness-choice-overflow", "more than %zu choices", MAXCH);
  if (g_replay) { v = i < g_in.size() ? g_in[i] : 0; if (n && v >= n) v = v % n; }
  else v = gen(n, par);
  S->ch[i] = v;
  S->nch = i + 1;
  mix(v);
  if (g_trace && v) fprintf(g_trace, "    choice[%lu] %s = %u/%u\n", (unsigned long)i, tag, v, n);
  return v;
}
static uint32_t gen_uni(uint32_t n, double) { return n ? (uint32_t)(rnd() % n) : 0; }
static uint32_t gen_bern(uint32_t, double p) { return rnd01() < p ? 1 : 0; }
static uint32_t gen_log(uint32_t n, double) {
  double u = rnd01() * std::log((double)n + 1.0);
  uint32_t v = (uint32_t)std::floor(std::exp(u)) - 1;
  return v > n - 1 ? n - 1 : v;
}
uint32_t pick(uint32_t n, const char* tag) { return n <= 1 ? 0 : take(n, gen_uni, 0, tag); }
uint32_t pick_log(uint32_t max, const char* tag) { return max == 0 ? 0 : take(max + 1, gen_log, 0, tag); }
bool chance(double p, const char* tag) { if (p <= 0) return false; return take(2, gen_bern, p, tag) != 0; }
bool chance2(double p, const char* tag) { return chance(p, tag); }
double grid(int n, double scale, const char* tag) {
  uint32_t v = pick(2 * n + 1, tag);
  int k = (v + 1) / 2;
  return ((v & 1) ? k : -k) * scale;
}
double real(double lo, double hi, const char* tag) { return lo + (hi - lo) * pick(4097, tag) / 4096.0; }

void event(const char* fmt, ...) {
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  hash_bits(buf, n);
  S->events++;
  if (g_trace) { fprintf(g_trace, "[%lu] T%d %s\n", (unsigned long)S->events, self(), buf); fflush(g_trace); }
}
void sample(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  size_t l = strlen(S->samp);
  if (l < sizeof S->samp - 2) vsnprintf(S->samp + l, sizeof S->samp - l, fmt, ap);
  va_end(ap);
}
void violate(const char* cls, const char* fmt, ...) {
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  va_list ap; va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  S->ticks = g_ticks;
  S->simus = clock_now_us();
  if (g_trace) { fprintf(g_trace, "VIOLATION %s: %s\n", S->cls, S->msg); fflush(g_trace); }
  S->verdict = 2;
  syscall(SYS_exit_group, 3);
  __builtin_unreachable();
}
void count(const char* key, long n) {
  for (uint32_t i = 0; i < S->ncnt; i++)
    if (!strcmp(S->cnt[i].key, key)) { S->cnt[i].v += n; return; }
  if (S->ncnt >= 160) return;
  snprintf(S->cnt[S->ncnt].key, sizeof S->cnt[0].key, "%s", key);
  S->cnt[S->ncnt].v = n;
  S->ncnt++;
}
void state(uint64_t h) { if (S->nstates < 512) S->states[S->nstates++] = h; }
void tick_overflow() {
  g_tick_limit = ~0ull;
  violate("no-progress", "operation did not finish within its budget of instrumented steps");
}
void set_budget(uint64_t more) { g_tick_limit = g_ticks + more; }

// ------------------------------------------------------------------ driver
static run_fn g_fn;
static int g_errfd = -1;
static double g_hang_secs = 60;

struct Result { int verdict; std::string cls, msg; uint64_t hash; std::vector<uint32_t> ch; bool crash; std::string err; };

static void child(uint64_t seed, uint64_t index, const std::vector<uint32_t>* in) {
  memset(S, 0, offsetof(Shared, ch));
  S->hash = 0xcbf29ce484222325ull;
  g_replay = in != nullptr;
  if (in) g_in = *in;
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + index * 0xD1B54A32D192ED03ull + 12345;
  for (char c : g_prop) x = x * 31 + (unsigned char)c;
  for (int i = 0; i < 4; i++) g_rng[i] = splitmix(x);
  int dn = open("/dev/null", O_WRONLY);
  if (!g_trace || getenv("SIM_QUIET")) dup2(dn, 1);
  ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET);
  dup2(g_errfd, 2);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  g_active = true;
  g_fn();
  g_active = false;
  S->ticks = g_ticks;
  S->simus = clock_now_us();
  S->verdict = 1;
  if (g_trace) fflush(g_trace);
  _exit(0);
}

static std::string read_err() {
  std::string s; char b[4096]; lseek(g_errfd, 0, SEEK_SET); ssize_t n;
  while ((n = read(g_errfd, b, sizeof b)) > 0 && s.size() < 60000) s.append(b, n);
  return s;
}
static std::string crash_class(int st, const std::string& err) {
  size_t p = err.find("AddressSanitizer: ");
  if (p != std::string::npos) {
    size_t q = err.find_first_of(" \n", p + 18);
    return "asan:" + err.substr(p + 18, q - p - 18);
  }
  p = err.find("runtime error: ");
  if (p != std::string::npos) {
    std::string l = err.substr(p + 15, err.find('\n', p) - p - 15);
    // drop numbers so that the class survives minimisation
    std::string o; for (char c : l) if (!isdigit((unsigned char)c) && c != '-') o += c;
    return "ubsan:" + o.substr(0, 80);
  }
  if (WIFSIGNALED(st)) return std::string("crash:signal-") + std::to_string(WTERMSIG(st));
  if (WIFEXITED(st)) return "crash:exit-" + std::to_string(WEXITSTATUS(st));
  return "crash:unknown";
}

static Result run_one(uint64_t seed, uint64_t index, const std::vector<uint32_t>* in) {
  S->verdict = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) child(seed, index, in);
  int st = 0; bool hung = false;
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    struct timespec now; clock_gettime(CLOCK_MONOTONIC, &now);
    double el = (now.tv_sec - t0.tv_sec) + 1e-9 * (now.tv_nsec - t0.tv_nsec);
    if (el > g_hang_secs) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    struct timespec to = {0, 50 * 1000 * 1000};
    sigtimedwait(&ss, nullptr, &to);
  }
  Result R; R.crash = false; R.verdict = S->verdict; R.hash = S->hash;
  if (hung) { R.verdict = 2; R.cls = "hang"; R.msg = "the simulated run did not end in real time"; R.hash = 0; R.crash = true; }
  else if (S->verdict == 0) {
    R.verdict = 2; R.crash = true; R.err = read_err(); R.cls = crash_class(st, R.err); R.hash = 0;
    size_t p = R.err.find("ERROR: "); if (p == std::string::npos) p = R.err.find("runtime error"); if (p == std::string::npos) p = 0;
    R.msg = "the process died: " + R.err.substr(p, 1500);
  } else if (S->verdict == 2) { R.cls = S->cls; R.msg = S->msg; }
  if (R.verdict == 2 || in) R.ch.assign(S->ch, S->ch + S->nch);
  return R;
}

static void jstr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::vector<uint32_t> trim(std::vector<uint32_t> c) { while (!c.empty() && c.back() == 0) c.pop_back(); return c; }

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, const std::string& cls, double secs, long& tries) {
  double t0 = now_s();
  g_hang_secs = 20;
  auto test = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>& out) {
    tries++;
    Result r = run_one(0, 0, &c);
    if (r.verdict == 2 && r.cls == cls) { out = trim(r.ch.size() < c.size() ? r.ch : c); return true; }
    return false;
  };
  std::vector<uint32_t> o;
  if (test(trim(best), o)) best = o;
  bool changed = true;
  while (changed && now_s() - t0 < secs) {
    changed = false;
    for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && now_s() - t0 < secs; chunk /= 2) {
      for (size_t i = 0; i < best.size() && now_s() - t0 < secs;) {
        std::vector<uint32_t> c(best.begin(), best.begin() + i);
        size_t e = std::min(best.size(), i + chunk);
        c.insert(c.end(), best.begin() + e, best.end());
        if (c.size() < best.size() && test(c, o)) { best = o; changed = true; continue; }
        // zero the chunk instead
        bool any = false; std::vector<uint32_t> z = best;
        for (size_t k = i; k < e; k++) { if (z[k]) any = true; z[k] = 0; }
        if (any && test(z, o)) { best = o; changed = true; }
        i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.size() && now_s() - t0 < secs; i++) {
      uint32_t v = best[i];
      uint32_t cands[4] = {1, v / 2, v - 1, 2};
      for (uint32_t w : cands) {
        if (v == 0 || w >= best[i] ) continue;
        std::vector<uint32_t> c = best; c[i] = w;
        if (test(c, o)) { best = o; changed = true; if (i >= best.size()) break; }
      }
    }
  }
  return best;
}

static const char* arg(int argc, char** argv, const char* k, const char* d) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
  return d;
}
static std::vector<uint32_t> parse_choices(const char* file) {
  FILE* f = fopen(file, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", file); exit(2); }
  std::vector<uint32_t> v; unsigned x; while (fscanf(f, "%u", &x) == 1) v.push_back(x); fclose(f); return v;
}

int main(int argc, char** argv, run_fn f) {
  g_fn = f;
  if (!getenv("SIM_ASLR_TRIED")) {
    setenv("SIM_ASLR_TRIED", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
  }
  std::string mode = argc > 1 ? argv[1] : "";
  g_prop = arg(argc, argv, "--prop", "");
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  g_errfd = memfd_create("err", 0);
  if (g_errfd < 0) { char t[] = "/tmp/simerrXXXXXX"; g_errfd = mkstemp(t); unlink(t); }
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);

  if (mode == "replay") {
    auto ch = parse_choices(arg(argc, argv, "--file", ""));
    const char* tr = arg(argc, argv, "--trace", nullptr);
    if (tr) g_trace = fopen(tr, "w");
    Result r = run_one(0, 0, &ch);
    printf("RESULT verdict=%d hash=%016lx choices=%zu class=%s\n", r.verdict, (unsigned long)r.hash, r.ch.size(), r.verdict == 2 ? r.cls.c_str() : "-");
    if (r.verdict == 2) printf("MESSAGE %s\n", r.msg.c_str());
    if (r.crash && getenv("SIM_SHOWERR")) printf("%s\n", r.err.c_str());
    return r.verdict == 2 ? 3 : 0;
  }
  if (mode == "one") {   // run one index of a seed, with trace
    const char* tr = arg(argc, argv, "--trace", nullptr);
    if (tr) g_trace = fopen(tr, "w");
    Result r = run_one(seed, strtoull(arg(argc, argv, "--index", "0"), nullptr, 10), nullptr);
    printf("RESULT verdict=%d hash=%016lx choices=%lu class=%s ticks=%lu\n", r.verdict, (unsigned long)r.hash, (unsigned long)S->nch, r.verdict == 2 ? r.cls.c_str() : "-", (unsigned long)S->ticks);
    if (r.verdict == 2) printf("MESSAGE %s\n", r.msg.c_str());
    if (r.crash && getenv("SIM_SHOWERR")) printf("%s\n", r.err.c_str());
    for (uint32_t k = 0; k < S->ncnt; k++) printf("  %s = %ld\n", S->cnt[k].key, S->cnt[k].v);
    return r.verdict == 2 ? 3 : 0;
  }
  if (mode == "batch") {
    uint64_t start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
    uint64_t step = strtoull(arg(argc, argv, "--step", "1"), nullptr, 10);
    uint64_t maxn = strtoull(arg(argc, argv, "--count", "1000000000"), nullptr, 10);
    double secs = atof(arg(argc, argv, "--secs", "10"));
    double shrink_secs = atof(arg(argc, argv, "--shrink", "20"));
    const char* out = arg(argc, argv, "--out", nullptr);
    std::set<std::string> known;
    { std::string k = arg(argc, argv, "--known", ""); size_t p = 0; while (p < k.size()) { size_t q = k.find('|', p); if (q == std::string::npos) q = k.size(); known.insert(k.substr(p, q - p)); p = q + 1; } }
    std::map<std::string, long> cnt; std::map<std::string, long> knownhits;
    std::unordered_set<uint64_t> states, hashes;
    std::vector<std::string> samples;
    std::vector<std::pair<uint64_t, uint64_t>> idxhash;
    uint64_t runs = 0, nontriv = 0, ticks = 0, events = 0, choices = 0; double simus = 0;
    double t0 = now_s();
    FILE* o = out ? fopen(out, "w") : stdout;
    bool viol = false; Result vr; uint64_t vidx = 0; std::vector<uint32_t> minimal; long tries = 0; bool deterministic = true; std::string detmsg; uint64_t minhash = 0; std::string minmsg;
    for (uint64_t n = 0; n < maxn; n++) {
      if (n && now_s() - t0 > secs) break;
      uint64_t idx = start + n * step;
      Result r = run_one(seed, idx, nullptr);
      runs++; ticks += S->ticks; events += S->events; choices += S->nch; simus += S->simus;
      for (uint32_t k = 0; k < S->ncnt; k++) cnt[S->cnt[k].key] += S->cnt[k].v;
      if (idxhash.size() < 200) idxhash.push_back({idx, r.hash});
      const bool isknown = r.verdict == 2 && known.count(r.cls);
      if (isknown) knownhits[r.cls]++;
      if (r.verdict == 2 && !isknown) {
        viol = true; vr = r; vidx = idx;
        Result r2 = run_one(seed, idx, nullptr);
        std::vector<uint32_t> c = r.ch;
        Result r3 = run_one(0, 0, &c);
        if (!(r2.verdict == 2 && r2.cls == r.cls && r2.hash == r.hash && r3.verdict == 2 && r3.cls == r.cls && r3.hash == r.hash)) {
          deterministic = false; detmsg = "first " + r.cls + " / again " + (r2.verdict == 2 ? r2.cls : "ok") + " / from choices " + (r3.verdict == 2 ? r3.cls : "ok");
        } else {
          minimal = shrink(trim(r.ch), r.cls, shrink_secs, tries);
          Result rm = run_one(0, 0, &minimal);
          minhash = rm.hash; minmsg = rm.msg;
          if (!(rm.verdict == 2 && rm.cls == r.cls)) { deterministic = false; detmsg = "minimised list does not reproduce"; }
        }
        break;
      }
      if (S->nontriv) { nontriv++; hashes.insert(r.hash); }
      for (uint32_t k = 0; k < S->nstates; k++) states.insert(S->states[k]);
      if (samples.size() < 3 && S->samp[0]) samples.push_back(S->samp);
    }
    fprintf(o, "{\"runs\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"ticks\":%lu,\"events\":%lu,\"choices\":%lu,\"sim_us\":%.0f,\"secs\":%.3f,\n", (unsigned long)runs, (unsigned long)nontriv, hashes.size(), (unsigned long)ticks, (unsigned long)events, (unsigned long)choices, simus, now_s() - t0);
    fprintf(o, "\"counters\":{"); bool first = true;
    for (auto& k : cnt) { if (!first) fputc(',', o); first = false; jstr(o, k.first); fprintf(o, ":%ld", k.second); }
    fprintf(o, "},\n\"known\":{"); first = true;
    for (auto& k : knownhits) { if (!first) fputc(',', o); first = false; jstr(o, k.first); fprintf(o, ":%ld", k.second); }
    fprintf(o, "},\n\"samples\":["); first = true;
    for (auto& k : samples) { if (!first) fputc(',', o); first = false; jstr(o, k); }
    fprintf(o, "],\n\"states\":["); first = true; size_t ns = 0;
    for (auto k : states) { if (ns++ >= 20000) break; if (!first) fputc(',', o); first = false; fprintf(o, "\"%lx\"", (unsigned long)k); }
    fprintf(o, "],\n\"nstates\":%zu,\"hashes\":[", states.size()); first = true;
    for (auto& k : idxhash) { if (!first) fputc(',', o); first = false; fprintf(o, "[%lu,\"%016lx\"]", (unsigned long)k.first, (unsigned long)k.second); }
    fprintf(o, "]");
    if (viol) {
      fprintf(o, ",\n\"violation\":{\"index\":%lu,\"class\":", (unsigned long)vidx); jstr(o, vr.cls);
      fprintf(o, ",\"message\":"); jstr(o, vr.msg);
      fprintf(o, ",\"min_message\":"); jstr(o, minmsg);
      fprintf(o, ",\"deterministic\":%s,\"detmsg\":", deterministic ? "true" : "false"); jstr(o, detmsg);
      fprintf(o, ",\"tries\":%ld,\"orig_choices\":%zu,\"hash\":\"%016lx\",\"min_hash\":\"%016lx\",\"choices\":[", tries, vr.ch.size(), (unsigned long)vr.hash, (unsigned long)minhash);
      const auto& c = deterministic ? minimal : vr.ch;
      for (size_t i = 0; i < c.size(); i++) fprintf(o, "%s%u", i ? "," : "", c[i]);
      fprintf(o, "]}");
    }
    fprintf(o, "}\n");
    if (out) fclose(o);
    return viol ? 3 : 0;
  }
  fprintf(stderr, "usage: %s batch|replay|one --prop P ...\n", argv[0]);
  return 2;
}
}
