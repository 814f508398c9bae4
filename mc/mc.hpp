// Stateless choice-tree model checker.
//
// A "space" is a driver function whose every nondeterministic decision (operation, argument, environment
// answer, fault, scheduling step) is drawn with mc::choose / mc::choose_dev.  The explorer enumerates *every*
// choice sequence depth first (choose_dev: at most `max_dev` non-default answers per execution), shards the tree
// over forked workers, attributes crashes / assertion failures / sanitizer reports / hangs to the choice sequence
// that was executing, and replays that sequence alone before reporting it.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <atomic>

namespace mc {

enum { MAXCH = 16384, NWMAX = 32, MSGLEN = 1600, NSAMPLE = 4, SAMPLECH = 512 };

struct Slot {              // one per worker, in shared memory
  volatile int space;
  volatile int len;
  volatile int ch[MAXCH];
  volatile double t_start; // start of the running execution (0: none)
  volatile int failed;
  char msg[MSGLEN];
  volatile uint64_t execs, skipped, steps, checks, nontriv;
  volatile int capped;
  volatile int done;
  int nsample; int sample_space[NSAMPLE]; int sample_len[NSAMPLE]; int sample[NSAMPLE][SAMPLECH];
};
struct SpaceStat { std::atomic<uint64_t> execs; };
struct Shared {
  Slot slot[NWMAX];
  std::atomic<int> stop;
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> per_space_exec[256];
  std::atomic<uint64_t> per_space_distinct[256];
  std::atomic<uint64_t> per_space_discard[256];
  std::atomic<uint64_t> known[64];
  std::atomic<uint32_t> covered[4096];
  char dtext[16384];
};
static const size_t HT = 1u << 23;

struct Skip {};
struct Violation { std::string msg; };
struct Discard {};   // the driver decided this choice sequence is outside the alphabet

struct Space {
  std::string name;
  std::function<void()> fn;
  int max_dev;
  int shard_depth;
  std::string bound;   // prose: what is enumerated
};

struct G {
  std::vector<Space> spaces;
  Shared *sh = nullptr;
  std::atomic<uint64_t> *ht = nullptr;
  Slot *cur = nullptr;
  int w = 0, nw = 1;
  std::vector<int> prefix, tr_v, tr_n;
  int devs = 0, max_dev = 0, shard_depth = 0;
  bool replaying = false, describe = false;
  bool owned = false;
  int space = 0;
  std::string text;
  uint64_t outcome = 0;
  double hang_s = 20;
  double t0 = 0, budget = 1e18;
  std::string tier = "quick", prop = "X00";
  std::vector<std::string> known;
  bool known_hit = false;
};
inline G &g() { static G x; return x; }

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool thorough() { return g().tier == "thorough"; }
inline bool describing() { return g().describe; }

inline void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void logf(const char *fmt, ...) {
  if (!g().describe) return;
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  g().text += b; g().text += "; ";
  size_t n = std::min(g().text.size(), sizeof(g().sh->dtext) - 1);   // survives a crash of the replaying child
  memcpy(g().sh->dtext, g().text.data(), n); g().sh->dtext[n] = 0;
}

[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *fmt, ...) {
  char b[MSGLEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Violation{b};
}
#define MC_CHECK(c, ...) do { mc::g().cur->checks++; if (!(c)) mc::fail(__VA_ARGS__); } while (0)

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = hmix(h, v); c += 8; n -= 8; }
  while (n--) h = hmix(h, *c++);
  return h;
}
inline void observe(uint64_t v) { g().outcome = hmix(g().outcome, v); }
inline void observe_f(double v) { uint64_t u; memcpy(&u, &v, 8); observe(u); }
inline void step(int n = 1) { g().cur->steps += n; }

inline bool insert_distinct(uint64_t h) {
  if (!h) h = 1;
  G &s = g();
  for (size_t i = h & (HT - 1), k = 0; k < 4096; k++, i = (i + 1) & (HT - 1)) {
    uint64_t e = s.ht[i].load(std::memory_order_relaxed);
    if (e == h) return false;
    if (e == 0) {
      uint64_t z = 0;
      if (s.ht[i].compare_exchange_strong(z, h)) { s.sh->distinct++; s.sh->per_space_distinct[s.space]++; return true; }
      if (z == h) return false;
    }
  }
  return false;
}

inline int choose_impl(int n, bool dev) {
  G &s = g();
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
  int eff = n;
  if (dev && s.devs >= s.max_dev) eff = 1;
  size_t i = s.tr_v.size();
  int v = 0;
  if (i < s.prefix.size()) {
    v = s.prefix[i];
    if (v >= eff || v < 0) { fprintf(stderr, "mc: REPLAY-DIVERGENCE at choice %zu: %d of %d\n", i, v, eff); _exit(97); }
  }
  if (i >= MAXCH) { fprintf(stderr, "mc: too many choices\n"); _exit(98); }
  s.tr_v.push_back(v); s.tr_n.push_back(eff);
  s.cur->ch[i] = v; s.cur->len = (int)i + 1;
  if (dev && v) s.devs++;
  if (!s.replaying && (int)s.tr_v.size() == s.shard_depth) {
    uint64_t h = 77;
    for (int x : s.tr_v) h = hmix(h, x);
    if ((int)(h % s.nw) != s.w) throw Skip{};
  }
  return v;
}
inline int choose(int n) { return choose_impl(n, false); }
inline int choose_dev(int n) { return choose_impl(n, true); }
inline bool flip() { return choose(2) == 1; }
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose((int)N)]; }
// Draws index 0..n-1, but when `extra` (thorough tier) is false only the first m are in the alphabet.
inline int choose_t(int n_thorough, int n_quick) { return choose(thorough() ? n_thorough : n_quick); }
[[noreturn]] inline void discard() { throw Discard{}; }

inline void add(const std::string &name, int max_dev, int shard_depth, const std::string &bound, std::function<void()> fn) {
  g().spaces.push_back({name, fn, max_dev, shard_depth, bound});
}

// Runs one execution.  0 ok, 1 violation, 2 skipped, 3 discarded
inline int run_one(std::string &msg) {
  G &s = g();
  Space &sp = s.spaces[s.space];
  s.tr_v.clear(); s.tr_n.clear(); s.devs = 0; s.max_dev = sp.max_dev; s.shard_depth = sp.shard_depth;
  s.outcome = 1234567 + s.space; s.text.clear();
  s.cur->len = 0; s.cur->space = s.space; s.cur->t_start = now();
  int r = 0;
  try { sp.fn(); }
  catch (Skip &) { r = 2; }
  catch (Discard &) { r = 3; }
  catch (Violation &v) { r = 1; msg = v.msg; }
  s.cur->t_start = 0;
  if (r == 0 || r == 3) {
    if (s.tr_v.size() < s.prefix.size()) { fprintf(stderr, "mc: REPLAY-DIVERGENCE: %zu choices, prefix has %zu\n", s.tr_v.size(), s.prefix.size()); _exit(97); }
    if (!s.replaying && (int)s.tr_v.size() < sp.shard_depth) {
      uint64_t h = 77; for (int x : s.tr_v) h = hmix(h, x);
      if ((int)(h % s.nw) != s.w) r = 2;
    }
  }
  if (r == 0) {
    if (!s.replaying) { s.cur->execs++; s.sh->per_space_exec[s.space]++; insert_distinct(s.outcome); }
  } else if (r == 3) { if (!s.replaying) s.sh->per_space_discard[s.space]++; }
  else if (r == 2) s.cur->skipped++;
  return r;
}

inline void worker() {
  G &s = g();
  uint64_t nrun = 0;
  for (s.space = 0; s.space < (int)s.spaces.size(); s.space++) {
    s.prefix.clear();
    uint64_t inspace = 0;
    for (;;) {
      if (s.sh->stop.load(std::memory_order_relaxed)) { s.cur->done = 1; _exit(0); }
      // some time is kept for each of the spaces that follow
      if ((nrun & 15) == 0 && now() - s.t0 > s.budget * (1 - std::min(0.5, 0.08 * (s.spaces.size() - 1 - s.space)))) { s.cur->capped = 1; break; }
      std::string msg;
      int r = run_one(msg);
      if (r == 1) {
        snprintf(s.cur->msg, MSGLEN, "%s", msg.c_str());
        s.cur->failed = 1;
        _exit(96);
      }
      if (r == 0) {
        nrun++; inspace++;
        if ((inspace == 3 || inspace == 200) && s.cur->nsample < NSAMPLE && s.tr_v.size() <= SAMPLECH && (s.space + s.w) % 3 == 0) {
          int k = s.cur->nsample;
          s.cur->sample_space[k] = s.space; s.cur->sample_len[k] = (int)s.tr_v.size();
          for (size_t i = 0; i < s.tr_v.size(); i++) s.cur->sample[k][i] = s.tr_v[i];
          s.cur->nsample = k + 1;
        }
      }
      // next choice sequence in depth-first order
      int i = (int)s.tr_v.size() - 1;
      while (i >= 0 && s.tr_v[i] + 1 >= s.tr_n[i]) i--;
      if (i < 0) break;
      s.prefix.assign(s.tr_v.begin(), s.tr_v.begin() + i);
      s.prefix.push_back(s.tr_v[i] + 1);
    }
  }
  s.cur->done = 1;
  _exit(0);
}

inline std::string jesc(const std::string &x) {
  std::string o;
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct ReplayResult { int status; std::string msg, text; };   // status 0 held, 1 violation, 2 hang, 3 divergence

// Replays one choice sequence alone in a fresh child.
inline ReplayResult replay_child(int space, const std::vector<int> &ch, double limit) {
  G &s = g();
  int pfd[2], efd[2];
  if (pipe(pfd) || pipe(efd)) { perror("pipe"); exit(3); }
  fflush(stdout); fflush(stderr);
  s.sh->dtext[0] = 0;
  pid_t p = fork();
  if (!p) {
    close(pfd[0]); close(efd[0]); dup2(efd[1], 2); dup2(efd[1], 1);
    s.replaying = true; s.describe = true; s.space = space; s.prefix = ch;
    s.cur = &s.sh->slot[NWMAX - 1];
    std::string msg;
    // stream the description as it grows so that a crash keeps it
    int r = run_one(msg);
    std::string out = (r == 1 ? "V" : "H") + msg + "\x01" + s.text;
    ssize_t wr = write(pfd[1], out.data(), std::min(out.size(), (size_t)60000)); (void)wr;
    _exit(r == 1 ? 96 : 0);
  }
  close(pfd[1]); close(efd[1]);
  std::string out, err; double t = now(); int st = 0; bool gone = false, hang = false;
  fcntl(pfd[0], F_SETFL, O_NONBLOCK); fcntl(efd[0], F_SETFL, O_NONBLOCK);
  for (;;) {
    char b[4096]; ssize_t n; 
    while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n);
    while ((n = read(efd[0], b, sizeof b)) > 0) if (err.size() < 200000) err.append(b, n);
    if (gone) break;
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) { gone = true; continue; }
    if (now() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; gone = true; continue; }
    usleep(2000);
  }
  close(pfd[0]); close(efd[0]);
  ReplayResult r; r.status = 0;
  size_t sep = out.find('\x01');
  if (sep != std::string::npos) { r.msg = out.substr(1, sep - 1); r.text = out.substr(sep + 1); }
  if (r.text.empty()) r.text = s.sh->dtext;
  if (hang) { r.status = 2; r.msg = "the execution did not finish (hang)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.status = 0;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 96) r.status = 1;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { r.status = 3; r.msg = "replay divergence: " + err; }
  else {
    r.status = 1;
    std::string tail = err;
    size_t k = tail.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = tail.find("runtime error");
    if (k == std::string::npos) k = tail.find("Assertion");
    if (k != std::string::npos) { size_t b = tail.rfind('\n', k); tail = tail.substr(b == std::string::npos ? 0 : b + 1); }
    if (tail.size() > 900) tail.resize(900);
    char b[64]; snprintf(b, 64, WIFSIGNALED(st) ? "killed by signal %d: " : "exit status %d: ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    r.msg = b + tail;
  }
  return r;
}

inline std::string chstr(const std::vector<int> &c) { std::string o = "["; for (size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + std::to_string(c[i]); return o + "]"; }

// main driver: args: --prop ID --tier T --budget S --out FILE --replay-out FILE [--replay SPACE c,c,c] [--workers N] [--only space]
inline int main(int argc, char **argv, std::function<void()> setup) {
  G &s = g();
  std::string out, rout, replay_space, replay_ch, only; bool replay = false; int nw = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") s.prop = nx(); else if (a == "--tier") s.tier = nx(); else if (a == "--budget") s.budget = atof(nx().c_str());
    else if (a == "--out") out = nx(); else if (a == "--replay-out") rout = nx(); else if (a == "--workers") nw = atoi(nx().c_str());
    else if (a == "--replay") { replay = true; replay_space = nx(); replay_ch = nx(); } else if (a == "--only") only = nx();
    else if (a == "--hang") s.hang_s = atof(nx().c_str());
  }
  if (nw > NWMAX - 2) nw = NWMAX - 2;
  s.sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s.ht = (std::atomic<uint64_t> *)mmap(0, HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  s.cur = &s.sh->slot[NWMAX - 2];
  setup();
  if (!only.empty()) { std::vector<Space> k; for (auto &x : s.spaces) if (x.name == only) k.push_back(x); s.spaces = k; }
  if (s.spaces.empty()) { fprintf(stderr, "no spaces for %s\n", s.prop.c_str()); return 3; }
  if (replay) {
    int k = -1; for (size_t i = 0; i < s.spaces.size(); i++) if (s.spaces[i].name == replay_space) k = (int)i;
    if (k < 0) { fprintf(stderr, "no such space\n"); return 3; }
    std::vector<int> ch; char *dup = strdup(replay_ch.c_str()); for (char *t = strtok(dup, ", []"); t; t = strtok(0, ", []")) ch.push_back(atoi(t));
    ReplayResult r = replay_child(k, ch, 120);
    printf("replay %s %s\n  %s\n  %s %s\n", replay_space.c_str(), replay_ch.c_str(), r.text.c_str(), r.status ? "VIOLATED:" : "held", r.msg.c_str());
    return r.status == 0 ? 0 : 1;
  }
  s.t0 = now(); s.nw = nw;
  signal(SIGPIPE, SIG_IGN);
  std::vector<pid_t> pid(nw);
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < nw; w++) {
    pid_t p = fork();
    if (!p) {
      s.w = w; s.cur = &s.sh->slot[w];
      int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      worker();
    }
    pid[w] = p;
  }
  int bad = -1; std::string badwhy; int alive = nw;
  while (alive > 0) {
    int st; pid_t q = waitpid(-1, &st, WNOHANG);
    if (q > 0) {
      for (int w = 0; w < nw; w++) if (pid[w] == q) {
        pid[w] = 0; alive--;
        Slot &sl = s.sh->slot[w];
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.done) && bad < 0) {
          bad = w; badwhy = sl.failed ? sl.msg : WIFSIGNALED(st) ? "worker killed by signal " + std::to_string(WTERMSIG(st)) : "worker exit " + std::to_string(WEXITSTATUS(st));
          if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) badwhy = "DIVERGENCE " + badwhy;
          s.sh->stop = 1;
        }
      }
      continue;
    }
    double t = now();
    for (int w = 0; w < nw; w++) if (pid[w]) {
      double ts = s.sh->slot[w].t_start;
      if (ts > 0 && t - ts > (bad >= 0 ? 3 : s.hang_s)) {
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--;
        if (bad < 0) { bad = w; badwhy = "an execution did not finish within " + std::to_string(s.hang_s) + " s"; s.sh->stop = 1; }
      }
    }
    usleep(3000);
  }
  uint64_t ex = 0, st = 0, ck = 0, sk = 0, nt = 0; int capped = 0;
  for (int w = 0; w < nw; w++) { Slot &l = s.sh->slot[w]; ex += l.execs; st += l.steps; ck += l.checks; sk += l.skipped; nt += l.nontriv; capped |= l.capped; }
  int rc = 0; std::string vmsg, vtext, vspace; std::vector<int> vch;
  if (bad >= 0) {
    Slot &l = s.sh->slot[bad];
    vspace = s.spaces[l.space].name; vch.assign(l.ch, l.ch + l.len);
    ReplayResult r = replay_child(l.space, vch, std::max(60.0, 3 * s.hang_s));
    if (r.status == 1 || r.status == 2) { rc = 1; vmsg = r.msg; vtext = r.text; }
    else if (l.failed) {
      // An execution that failed in its shard but not alone depends on earlier executions of the same process:
      // state leaked between supposedly independent instances.  Re-run the shard to confirm, then report.
      rc = 1; vmsg = badwhy + " (fails after earlier executions in the same process, not alone: state leaks between independent instances)";
      vtext = r.text;
    } else { rc = 2; vmsg = badwhy + " (did not reproduce alone) " + r.msg; }
  }
  // samples
  std::string samples; int ns = 0;
  if (rc == 0)
    for (int k = 0; k < NSAMPLE && ns < 6; k++)
      for (int w = 0; w < nw && ns < 6; w++) {
        Slot &l = s.sh->slot[w]; if (k >= l.nsample) continue;
        std::vector<int> c(l.sample[k], l.sample[k] + l.sample_len[k]);
        ReplayResult r = replay_child(l.sample_space[k], c, 60);
        if (r.status != 0) { rc = 2; vmsg = "a sampled execution that held does not hold when replayed: " + r.msg; vspace = s.spaces[l.sample_space[k]].name; vch = c; }
        if (r.text.size() > 700) r.text.resize(700);
        samples += std::string(ns ? ",\n    " : "\n    ") + "{\"space\":\"" + jesc(s.spaces[l.sample_space[k]].name) + "\",\"choices\":" + (c.size() > 60 ? "\"" + std::to_string(c.size()) + " choices\"" : chstr(c)) + ",\"execution\":\"" + jesc(r.text) + "\"}";
        ns++;
      }
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"distinct\":%llu,\"capped\":%d,\"wall\":%.3f,\"rc\":%d,\n \"nontrivial\":%llu,\n \"spaces\":[",
            (unsigned long long)ex, (unsigned long long)st, (unsigned long long)ck, (unsigned long long)s.sh->distinct.load(), capped, now() - s.t0, rc, (unsigned long long)nt);
    for (size_t i = 0; i < s.spaces.size(); i++)
      fprintf(f, "%s\n  {\"name\":\"%s\",\"bound\":\"%s\",\"max_deviations\":%d,\"executions\":%llu,\"distinct_outcomes\":%llu,\"not_decided\":%llu}", i ? "," : "", jesc(s.spaces[i].name).c_str(), jesc(s.spaces[i].bound).c_str(),
              s.spaces[i].max_dev, (unsigned long long)s.sh->per_space_exec[i].load(), (unsigned long long)s.sh->per_space_distinct[i].load(), (unsigned long long)s.sh->per_space_discard[i].load());
    fprintf(f, "],\n \"samples\":[%s],\n \"violation\":{\"space\":\"%s\",\"choices\":%s,\"message\":\"%s\",\"execution\":\"%s\"}}\n", samples.c_str(), jesc(vspace).c_str(), chstr(vch).c_str(), jesc(vmsg).c_str(), jesc(vtext).c_str());
    fclose(f);
  }
  fprintf(stderr, "[%s/%s] executions=%llu transitions=%llu checks=%llu distinct=%llu %s wall=%.1fs\n", s.prop.c_str(), s.tier.c_str(), (unsigned long long)ex, (unsigned long long)st, (unsigned long long)ck,
          (unsigned long long)s.sh->distinct.load(), capped ? "CAPPED" : "complete", now() - s.t0);
  for (size_t i = 0; i < s.spaces.size(); i++) fprintf(stderr, "   %-28s exec=%-9llu distinct=%-8llu discarded=%llu\n", s.spaces[i].name.c_str(), (unsigned long long)s.sh->per_space_exec[i].load(), (unsigned long long)s.sh->per_space_distinct[i].load(), (unsigned long long)s.sh->per_space_discard[i].load());
  if (rc) fprintf(stderr, "%s in space %s %s\n  %s\n  %s\n", rc == 1 ? "VIOLATION" : "ERROR", vspace.c_str(), chstr(vch).c_str(), vmsg.c_str(), vtext.c_str());
  return rc;
}
}  // namespace mc
