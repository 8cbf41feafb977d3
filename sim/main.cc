// Worker: runs seeds, gates and minimises violations, replays files.
#include "rt.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
void rt_map();
void shared_reset();
void decisions_seed(u64 seed, u64 run, const char* scen);
void decisions_replay(const std::vector<Entry>& es);
void rt_run(void (*body)(), unsigned cpu_s);
void seams_init();
void arch_warm(); // scenario set specific
} // namespace sim
using namespace sim;

static double wall() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}
static const Scenario* scen;
static unsigned cpu_cap = 40;

// one simulated run in a child process; result in *sh
static void one(u64 seed, u64 run, const std::vector<Entry>* replay) {
  shared_reset();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (replay) {
      decisions_seed(0, 0, scen->id);
      decisions_replay(*replay);
    } else
      decisions_seed(seed, run, scen->id);
    rt_run(scen->run, cpu_cap);
    _exit(9);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (!sh->viol && !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done)) {
    sh->viol = 1;
    snprintf(sh->kind, sizeof sh->kind, "crash");
    if (WIFSIGNALED(st))
      snprintf(sh->msg, sizeof sh->msg, "the process died from signal %d", WTERMSIG(st));
    else
      snprintf(sh->msg, sizeof sh->msg, "the process ended early with status %d", WEXITSTATUS(st));
  }
}
static std::vector<Entry> get_log() { return std::vector<Entry>(sh->log, sh->log + sh->nlog); }

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void write_replay(const char* path, const std::vector<Entry>& es, const char* kind, const char* msg,
                         u64 seed, u64 run) {
  FILE* f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "l1c-sim 1\nscenario %s\nflavour %s\ntier %s\nseed %llu run %llu\nkind %s\n", scen->id, g_flavour,
          g_thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)run, kind);
  std::string m = msg;
  for (auto& c : m) if (c == '\n') c = ' ';
  fprintf(f, "message %s\nentries %zu\n", m.c_str(), es.size());
  for (auto& e : es)
    fprintf(f, "%s %llu %llu\n", stream_name[e.stream], (unsigned long long)e.idx, (unsigned long long)e.val);
  fclose(f);
}
static bool read_replay(const char* path, std::vector<Entry>& es, std::string& id, std::string& kind, bool& thorough) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char line[4096];
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    char a[64];
    unsigned long long i, v;
    if (in) {
      if (sscanf(line, "%63s %llu %llu", a, &i, &v) == 3)
        for (u32 s = 0; s < NSTREAM; s++)
          if (!strcmp(stream_name[s], a)) es.push_back(Entry{s, 0, i, v});
    } else if (sscanf(line, "scenario %63s", a) == 1) id = a;
    else if (sscanf(line, "kind %63s", a) == 1) kind = a;
    else if (sscanf(line, "tier %63s", a) == 1) thorough = !strcmp(a, "thorough");
    else if (!strncmp(line, "entries", 7)) in = true;
  }
  fclose(f);
  return in;
}

static std::vector<Entry> minimise(std::vector<Entry> es, const std::string& kind, double secs, int max_replays, int* used) {
  double t0 = wall();
  int n = 0;
  auto fails = [&](const std::vector<Entry>& c, std::vector<Entry>* actual) {
    n++;
    one(0, 0, &c);
    if (!sh->viol || kind != sh->kind) return false;
    *actual = get_log();
    return true;
  };
  auto left = [&] { return n < max_replays && wall() - t0 < secs; };
  std::vector<Entry> got;
  // whole streams first
  for (u32 s = 0; s < NSTREAM && left(); s++) {
    std::vector<Entry> c;
    for (auto& e : es) if (e.stream != s) c.push_back(e);
    if (c.size() != es.size() && fails(c, &got)) es = got.size() < c.size() ? got : c;
  }
  size_t chunk = es.size() / 2;
  while (chunk >= 1 && left()) {
    bool any = false;
    for (size_t i = 0; i < es.size() && left();) {
      std::vector<Entry> c(es.begin(), es.begin() + i);
      size_t j = std::min(es.size(), i + chunk);
      c.insert(c.end(), es.begin() + j, es.end());
      if (fails(c, &got)) {
        es = got.size() < c.size() ? got : c;
        any = true;
      } else
        i = j;
    }
    if (chunk == 1 && !any) break;
    chunk = chunk > 1 ? chunk / 2 : 1;
    if (chunk == 1 && !any && es.size() < 2) break;
  }
  // smaller workload values
  for (size_t i = 0; i < es.size() && left(); i++) {
    if (es[i].stream != S_WORK) continue;
    for (u64 v : {(u64)1, es[i].val / 2}) {
      if (!v || v >= es[i].val) continue;
      std::vector<Entry> c = es;
      c[i].val = v;
      if (fails(c, &got)) { es = c; break; }
    }
  }
  *used = n;
  return es;
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> o;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  g_thorough = o["--tier"] == "thorough";
  g_scratch = o.count("--scratch") ? o["--scratch"] : "/tmp";
  mkdir(g_scratch.c_str(), 0700);

  std::vector<Entry> rep;
  std::string id = o["--scen"], kind;
  if (cmd == "replay") {
    if (!read_replay(o["--file"].c_str(), rep, id, kind, g_thorough)) {
      fprintf(stderr, "cannot read replay file\n");
      return 2;
    }
  }
  scen = find_scenario(id.c_str());
  if (!scen) {
    fprintf(stderr, "no scenario %s in this executable\n", id.c_str());
    return 2;
  }
  rt_map();
  seams_init();
  arch_warm();
  if (scen->warm) scen->warm();

  if (cmd == "replay") {
    one(0, 0, &rep);
    if (sh->viol) {
      printf("VIOLATED kind=%s digest=%016llx %s\n%s", sh->kind, (unsigned long long)sh->digest, sh->msg, sh->hist);
      return kind.empty() || kind == sh->kind ? 3 : 4;
    }
    printf("no violation digest=%016llx\n%s", (unsigned long long)sh->digest, sh->hist);
    return 0;
  }
  if (cmd == "one") {
    one(num("--seed", 1), num("--first", 0), nullptr);
    printf("viol=%u kind=%s %s\ndigest=%016llx steps=%llu preempt=%llu log=%u faults=%llu\n%s", sh->viol, sh->kind, sh->msg,
           (unsigned long long)sh->digest, (unsigned long long)sh->steps, (unsigned long long)sh->preempt, sh->nlog,
           (unsigned long long)sh->faults, sh->hist);
    for (u32 i = 0; i < sh->nprobe; i++) printf("  %s=%llu\n", sh->probes[i].name, (unsigned long long)sh->probes[i].n);
    return sh->viol ? 3 : 0;
  }
  if (cmd == "digests") { // determinism audit
    u64 seed = num("--seed", 1), first = num("--first", 0), cnt = num("--count", 10);
    for (u64 i = first; i < first + cnt; i++) {
      one(seed, i, nullptr);
      printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)(sh->cut ? 0 : sh->digest), sh->viol ? sh->kind : "ok");
    }
    return 0;
  }
  // run
  u64 seed = num("--seed", 1), first = num("--first", 0), cnt = num("--count", 100), stride = num("--stride", 1);
  double secs = num("--secs", 600), minsecs = num("--minsecs", 25);
  std::string out = o["--out"], stop = o["--stop"];
  std::string known = o["--known"]; // file with "kind<TAB>substring" lines to skip
  std::vector<std::pair<std::string, std::string>> kf;
  if (!known.empty()) {
    FILE* f = fopen(known.c_str(), "r");
    char line[2048];
    while (f && fgets(line, sizeof line, f)) {
      char* t = strchr(line, '\t');
      if (!t) continue;
      *t = 0;
      std::string m = t + 1;
      while (!m.empty() && (m.back() == '\n' || m.back() == '\r')) m.pop_back();
      kf.push_back({line, m});
    }
    if (f) fclose(f);
  }
  double t0 = wall();
  u64 runs = 0, steps_sum = 0, faults_sum = 0, pre_sum = 0, rechecked = 0, runs_with_fault = 0, runs_preempted = 0;
  double simsec = 0;
  std::map<std::string, u64> probes, kfhits;
  std::unordered_set<u64> scheds, states, digests;
  std::vector<std::string> samples;
  std::string viol;
  int rc = 0, gate_failed = 0;
  u64 i;
  for (i = first; runs < cnt; i += stride) {
    if (wall() - t0 > secs) break;
    if (!stop.empty() && (runs & 7) == 0 && access(stop.c_str(), F_OK) == 0) break;
    one(seed, i, nullptr);
    runs++;
    steps_sum += sh->steps;
    if (sh->cut) probes["large run cut short"]++;
    faults_sum += sh->faults;
    pre_sum += sh->preempt;
    simsec += sh->sim_seconds;
    if (sh->faults) runs_with_fault++;
    if (sh->preempt) runs_preempted++;
    for (u32 k = 0; k < sh->nprobe; k++) probes[sh->probes[k].name] += sh->probes[k].n;
    scheds.insert(sh->sched_hash);
    bool nontrivial = sh->faults || sh->preempt;
    for (u32 k = 0; k < sh->nprobe; k++) nontrivial |= !strncmp(sh->probes[k].name, "heap.", 5);
    if (nontrivial) digests.insert(sh->digest);
    for (u32 k = 0; k < sh->nstate; k++) states.insert(sh->states[k]);
    if (samples.size() < 2 && sh->hist_len) {
      char b[64];
      snprintf(b, sizeof b, "seed %llu run %llu: ", (unsigned long long)seed, (unsigned long long)i);
      samples.push_back(std::string(b) + std::string(sh->hist, std::min<u32>(sh->hist_len, 700)));
    }
    if (sh->viol && !strcmp(sh->kind, "sim-error")) {
      fprintf(stderr, "simulator error, seed %llu run %llu: %s\n", (unsigned long long)seed, (unsigned long long)i, sh->msg);
      rc = 2;
      break;
    }
    if (sh->viol) {
      std::string k = sh->kind, msg = sh->msg, hist(sh->hist, sh->hist_len);
      bool is_known = false;
      for (auto& q : kf)
        if (q.first == k && msg.find(q.second) != std::string::npos) {
          kfhits[q.first + "\t" + q.second]++;
          is_known = true;
          break;
        }
      if (is_known) continue;
      u64 dg = sh->digest;
      std::vector<Entry> log = get_log();
      bool over = sh->log_over;
      // gate: the same seed gives the same execution
      one(seed, i, nullptr);
      if (sh->cut) continue; // a large run on the edge of its time
      if (!sh->viol || k != sh->kind || dg != sh->digest) {
        fprintf(stderr, "nondeterministic: seed %llu run %llu gave %s, then %s (%s)\n", (unsigned long long)seed,
                (unsigned long long)i, k.c_str(), sh->viol ? sh->kind : "no violation", msg.c_str());
        if (++gate_failed > 8) break;
        continue;
      }
      if (!over) {
        one(0, 0, &log);
        if (sh->cut) continue;
        if (!sh->viol || k != sh->kind) {
          fprintf(stderr, "replay of the recorded decisions does not reproduce: seed %llu run %llu %s: %s\n",
                  (unsigned long long)seed, (unsigned long long)i, k.c_str(), msg.c_str());
          if (++gate_failed > 8) break;
          continue;
        }
        size_t full = log.size();
        int used = 0;
        log = minimise(log, k, minsecs, 600, &used);
        one(0, 0, &log);
        if (sh->viol && k == sh->kind) {
          msg = sh->msg;
          hist.assign(sh->hist, sh->hist_len);
        }
        fprintf(stderr, "minimised %zu -> %zu decisions in %d replays\n", full, log.size(), used);
      }
      write_replay(o["--replay"].c_str(), log, k.c_str(), msg.c_str(), seed, i);
      if (!stop.empty()) close(open(stop.c_str(), O_CREAT | O_WRONLY, 0600));
      char b[64];
      snprintf(b, sizeof b, "%llu", (unsigned long long)i);
      viol = "{\"kind\":" + jstr(k) + ",\"msg\":" + jstr(msg) + ",\"hist\":" + jstr(hist) + ",\"run\":" + b + "}";
      rc = 3;
      break;
    }
    if (runs % 40 == 7 && !sh->cut) { // determinism audit while searching
      u64 dg = sh->digest;
      one(seed, i, nullptr);
      rechecked++;
      if (dg != sh->digest && !sh->cut) {
        fprintf(stderr, "nondeterministic: seed %llu run %llu digests differ\n", (unsigned long long)seed, (unsigned long long)i);
        rc = 2;
        break;
      }
    }
  }
  if (!rc && gate_failed) rc = 2; // something failed that does not repeat
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"faults\":%llu,\"preemptions\":%llu,\"sim_seconds\":%.9g,\"wall\":%.3f,\"rechecked\":%llu,"
             "\"runs_with_fault\":%llu,\"runs_preempted\":%llu,\"rc\":%d,\"violation\":%s,\"probes\":{",
          (unsigned long long)runs, (unsigned long long)steps_sum, (unsigned long long)faults_sum, (unsigned long long)pre_sum,
          simsec, wall() - t0, (unsigned long long)rechecked, (unsigned long long)runs_with_fault,
          (unsigned long long)runs_preempted, rc, viol.empty() ? "null" : viol.c_str());
  bool c = false;
  for (auto& p : probes) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"known\":{");
  c = false;
  for (auto& p : kfhits) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"samples\":[");
  c = false;
  for (auto& s : samples) { fprintf(f, "%s%s", c ? "," : "", jstr(s).c_str()); c = true; }
  fprintf(f, "],\"scheds\":[");
  c = false;
  for (u64 h : scheds) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
  fprintf(f, "],\"states\":[");
  c = false;
  for (u64 h : states) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
  fprintf(f, "],\"digests\":[");
  c = false;
  for (u64 h : digests) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; }
  fprintf(f, "]}\n");
  fclose(f);
  return rc;
}
