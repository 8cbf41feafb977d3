// Files, output and time.
#include "scen.h"
#include "rt.h"
#include <math.h>
#include <unistd.h>
#include <cjson/cJSON.h>

extern "C" void sim_free(void*);
namespace sim {
// ------------------------------------------------------------------ C08
struct Doc {
  std::string text;
  bool valid = true;
  std::vector<std::string> keys;
  std::map<std::string, int> kind; // 0 number 1 number array 2 text 3 array with another element 4 other
  std::map<std::string, std::vector<double>> val;
};
static Doc gen_doc() {
  Doc d;
  Rng r(work(1, 0xffffffff));
  int k = (int)work(1, 5);
  std::string t = "{";
  auto ws = [&] { static const char* w[] = {"", " ", "\n", "\t ", "\r\n"}; return std::string(w[r.below(5)]); };
  auto num = [&](double* v, bool integer) {
    char b[64];
    if (integer) {
      long i = (long)r.below(2000000) - 1000000;
      *v = (double)i;
      snprintf(b, sizeof b, "%ld", i);
    } else {
      *v = r.sym() * pow(10.0, (double)r.below(40) - 20);
      snprintf(b, sizeof b, "%.17g", *v);
    }
    return std::string(b);
  };
  for (int i = 0; i < k; i++) {
    char nm[16];
    snprintf(nm, sizeof nm, "key%d", i);
    if (i && workp(0.15)) { // differs from an earlier key in case or by its end only
      std::string o = d.keys[work(0, i - 1)];
      switch (work(0, 2)) {
      case 0: o[0] = o[0] == 'k' ? 'K' : 'k'; break;
      case 1: o += "0"; break;
      case 2: if (o.size() > 2) o.pop_back(); break;
      }
      if (o.size() < sizeof nm && !d.kind.count(o)) snprintf(nm, sizeof nm, "%s", o.c_str());
    }
    // number, array of numbers, text, array with something that is no number in it, other
    int kind = (int)workw({6, 12, 2, 2, 2});
    d.keys.push_back(nm);
    d.kind[nm] = kind;
    if (i) t += "," + ws();
    t += ws() + "\"" + nm + "\":" + ws();
    bool integer = r.chance(0.5);
    if (kind == 0) {
      double v;
      t += num(&v, integer);
      d.val[nm].push_back(v);
    } else if (kind == 1) {
      int n = (int)(workp(0.1) ? work(100, workp(0.1) ? 9000 : 900) : workp(0.05) ? 0 : work(1, 20));
      t += "[";
      for (int j = 0; j < n; j++) {
        double v;
        t += std::string(j ? "," : "") + ws() + num(&v, integer);
        d.val[nm].push_back(v);
      }
      t += "]";
    } else if (kind == 3) {
      static const char* odd[] = {"null", "true", "false", "\"7\"", "\"\"", "[3]", "[]", "{\"key0\": 3}", "\"nan\""};
      int n = (int)work(0, 12), at = (int)work(0, n);
      t += "[";
      for (int j = 0; j <= n; j++) {
        double v;
        t += std::string(j ? "," : "") + ws() + (j == at ? std::string(odd[work(0, 8)]) : num(&v, integer));
      }
      t += "]";
    } else if (kind == 4) {
      static const char* odd[] = {"null", "true", "false", "{}", "{\"key0\": 3, \"key1\": [1, 2], \"absent\": 4}", "\"12\""};
      t += odd[work(0, 5)];
    } else
      t += "\"text with \\\"quotes\\\", \xc3\xa9\xe2\x82\xac and [brackets]\"";
  }
  t += ws() + "}" + ws();
  if (workp(0.04)) { // not an object: nothing can be extracted
    t = "[" + t + ", 1]";
    for (auto& q : d.kind) q.second = 4;
  }
  int bad = (int)workw({12, 1, 1, 1, 1, 1});
  if (bad) d.valid = false;
  switch (bad) {
  case 1: t = ""; break;
  case 2: t.resize(t.rfind('}')); break;                          // end missing
  case 3: t = "}" + t; break; // (text after a complete value is accepted by the parser)
  case 4: t.resize(1 + r.below(t.rfind('}') - 1)); break;         // cut somewhere inside
  case 5: t.insert(t.find(':'), "@"); break;
  }
  d.text = t;
  return d;
}
static void put(const std::string& path, const std::string& t) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) violation("sim-error", "cannot write the scratch file");
  fclose(f);
}
static void c08() {
  int rounds = (int)work(1, 3);
  Rng& pr = policy_rng();
  io_policy.mode = pr.chance(0.75);
  io_policy.p = pr.chance(0.5) ? 0.15 : 0.4;
  mem_policy.fail_mode = pr.chance(0.4) ? 3 : 0;
  mem_policy.p = pr.chance(0.5) ? 0.02 : 0.15;
  policy_mem();
  for (int q = 0; q < rounds; q++) {
    Doc d = gen_doc();
    std::string path = g_scratch + "/doc.json";
    bool missing = workp(0.05);
    if (missing) unlink(path.c_str());
    else put(path, d.text);
    io_set_target(path.c_str());
    u64 b0 = resources(), f0 = faults_fired();
    bool as_text = workp(0.35);
    if (as_text) {
      char* t = nullptr;
      heap_call_begins();
      int st = load_file_as_text((char*)path.c_str(), &t);
      u64 ff = faults_fired() - f0;
      bool mod = io_target_modified();
      note("load_file_as_text of %zu bytes -> %d, %llu faults%s", d.text.size(), st, (unsigned long long)ff, mod ? ", file changed meanwhile" : "");
      state(mix(1, (u64)(st != 0) * 4 + (ff > 0) * 2 + mod));
      if (missing && !st) violation("no-error", "load_file_as_text succeeded on a file that does not exist");
      if (st) {
        if (!ff && !missing && !d.text.empty()) violation("spurious-error", "load_file_as_text failed with %d on a readable file of %zu bytes", st, d.text.size());
        if (t) violation("dangling-text", "load_file_as_text failed with %d but set its output", st);
        if (resources() != b0) violation("leak", "load_file_as_text failed with %d and left %lld resource(s)", st, (long long)(resources() - b0));
      } else {
        if (!t) violation("no-error", "load_file_as_text succeeded without text");
        size_t n = strnlen(t, heap_size(t));
        if (n == heap_size(t)) violation("unterminated", "the text of load_file_as_text does not end");
        bool prefix = n <= d.text.size() && !memcmp(t, d.text.data(), n);
        // with the file cut and extended between reads, any mixture of its bytes and the added blanks is a faithful reading
        bool mixed = true;
        for (size_t i = 0; i < n; i++) mixed &= (i < d.text.size() && t[i] == d.text[i]) || t[i] == ' ' || t[i] == '\n';
        if (mod ? !mixed : !(prefix && n == d.text.size()))
          violation("wrong-contents", "load_file_as_text returned %zu bytes that are not the file's %zu bytes (%llu faults)", n, d.text.size(), (unsigned long long)ff);
        if (!mod && n != d.text.size()) violation("wrong-contents", "load_file_as_text succeeded with %zu of %zu bytes", n, d.text.size());
        sim_free(t);
        if (resources() != b0) violation("leak", "load_file_as_text left %lld resource(s) besides its text", (long long)(resources() - b0));
      }
      unlink(path.c_str());
      continue;
    }
    cJSON* j = nullptr;
    heap_call_begins();
    int st = load_file_to_json((char*)path.c_str(), &j);
    u64 ff = faults_fired() - f0;
    bool mod = io_target_modified();
    note("load_file_to_json of %zu bytes (%s) -> %d, %llu faults%s", d.text.size(), d.valid ? "valid" : "malformed", st, (unsigned long long)ff, mod ? ", file changed meanwhile" : "");
    state(mix(2, (u64)(st != 0) * 8 + (ff > 0) * 4 + mod * 2 + d.valid));
    if (st) {
      if (!ff && d.valid && !missing) violation("spurious-error", "load_file_to_json failed with %d on a valid file", st);
      if (j) violation("dangling-text", "load_file_to_json failed with %d but set its output", st);
      if (resources() != b0) violation("leak", "load_file_to_json failed with %d and left %lld resource(s)", st, (long long)(resources() - b0));
      unlink(path.c_str());
      continue;
    }
    if (missing) violation("no-error", "load_file_to_json succeeded on a file that does not exist");
    if (!j) violation("no-error", "load_file_to_json succeeded without a document");
    if (!d.valid) violation("no-error", "load_file_to_json reported success for a malformed file of %zu bytes", d.text.size());
    // a document that loads carries exactly the file's values
    int nq = (int)work(1, 6);
    for (int i = 0; i < nq; i++) {
      std::string key = workp(0.85) ? d.keys[work(0, d.keys.size() - 1)] : std::string("absent");
      int kind = key == "absent" ? -1 : d.kind[key];
      int how = (int)work(0, 3);
      const std::vector<double>& v = d.val[key];
      u64 r0 = resources(), g0 = fired("memory-request-fails");
      if (how == 0) {
        l1c_int n = -77;
        int s = extract_json_int(j, (char*)key.c_str(), &n);
        if ((s == 0) != (kind == 0)) violation("wrong-extract", "extract_json_int(%s) returned %d for %s", key.c_str(), s, kind == 0 ? "a number" : "something else");
        if (!s && v[0] == floor(v[0]) && fabs(v[0]) < 2e9 && n != (l1c_int)v[0]) violation("wrong-extract", "extract_json_int(%s) gave %d instead of %.17g", key.c_str(), (int)n, v[0]);
        if (s && n != -77) violation("wrong-extract", "extract_json_int(%s) failed but wrote its output", key.c_str());
      } else if (how == 1) {
        double x = -77.5;
        int s = extract_json_double(j, (char*)key.c_str(), &x);
        if ((s == 0) != (kind == 0)) violation("wrong-extract", "extract_json_double(%s) returned %d for %s", key.c_str(), s, kind == 0 ? "a number" : "something else");
        if (!s && x != v[0]) violation("wrong-extract", "extract_json_double(%s) gave %.17g instead of %.17g", key.c_str(), x, v[0]);
        if (s && x != -77.5) violation("wrong-extract", "extract_json_double(%s) failed but wrote its output", key.c_str());
      } else if (how == 2) {
        double* x = nullptr;
        l1c_int n = -1;
        int s = extract_json_double_array(j, (char*)key.c_str(), &x, &n);
        bool mf = fired("memory-request-fails") > g0;
        if (s == 0 ? kind != 1 : kind == 1 && !mf && !v.empty()) violation("wrong-extract", "extract_json_double_array(%s) returned %d for %s", key.c_str(), s, kind == 1 ? "an array" : kind == 3 ? "an array with an element that is no number" : "something else");
        if (!s) {
          if (n != (l1c_int)v.size()) violation("wrong-extract", "extract_json_double_array(%s) found %d values of %zu", key.c_str(), (int)n, v.size());
          for (int k = 0; k < n; k++) if (x[k] != v[k]) violation("wrong-extract", "value %d of %s is %.17g instead of %.17g", k, key.c_str(), x[k], v[k]);
          l1c_free_double(x);
        }
      } else {
        l1c_int* x = nullptr;
        l1c_int n = -1;
        int s = extract_json_int_array(j, (char*)key.c_str(), &x, &n);
        bool mf = fired("memory-request-fails") > g0;
        if (s == 0 ? kind != 1 : kind == 1 && !mf && !v.empty()) violation("wrong-extract", "extract_json_int_array(%s) returned %d for %s", key.c_str(), s, kind == 1 ? "an array" : kind == 3 ? "an array with an element that is no number" : "something else");
        if (!s) {
          if (n != (l1c_int)v.size()) violation("wrong-extract", "extract_json_int_array(%s) found %d values of %zu", key.c_str(), (int)n, v.size());
          for (int k = 0; k < n; k++)
            if (v[k] == floor(v[k]) && fabs(v[k]) < 2e9 && x[k] != (l1c_int)v[k]) violation("wrong-extract", "value %d of %s is %d instead of %.17g", k, key.c_str(), (int)x[k], v[k]);
          sim_free(x);
        }
      }
      if (resources() != r0) violation("leak", "extracting %s left %lld resource(s)", key.c_str(), (long long)(resources() - r0));
    }
    cJSON_Delete(j);
    if (resources() != b0) violation("leak", "%lld resource(s) left after the document was deleted", (long long)(resources() - b0));
    unlink(path.c_str());
    // no document at all
    l1c_int n = 3;
    double* x = nullptr;
    double dv = 0;
    l1c_int* ix = nullptr;
    if (!extract_json_int(nullptr, (char*)"a", &n) || !extract_json_double_array(nullptr, (char*)"a", &x, &n) ||
        !extract_json_double(nullptr, (char*)"a", &dv) || !extract_json_int_array(nullptr, (char*)"a", &ix, &n)) violation("no-error", "extraction from a missing document succeeded");
  }
  heap_check_canaries();
}

// ------------------------------------------------------------------ C09
static int g_other;
static int other_hook(const char* fmt, ...) { (void)fmt; g_other++; return 0; }
static bool verbose_call(int t) {
  return t == K_CG || t == K_CGP || t == K_L1QC_DCT || t == K_L1QC_OWN || t == K_L1QC_TV || t == K_NESTA_TV || t == K_NESTA_OWN || t == K_NESTA_MAT;
}
static void c09() {
  Call c = gen_call(M_ALL & ~BIT(K_JSON));
  c.verbose = (int)workw({2, 1, 1, 1});
  if (c.verbose == 3 && workp(0.5)) c.verbose = (int)work(3, workp(0.5) ? 20 : 2000);
  if (c.verbose == 0) c.l1.cg_verbose = 0;
  bool faulty = workp(0.5);
  Res quiet, ref = fresh_call(c);
  {
    Call q = c;
    q.verbose = 0;
    q.l1.cg_verbose = 0;
    quiet = c.verbose || c.l1.cg_verbose ? fresh_call(q) : ref;
  }
  policy_mem();
  std::string text;
  hook_capture(&text);
  l1c_printf_t* before = l1c_replace_printf(sim_hook_printf);
  print_policy.mode = policy_rng().chance(0.7);
  u64 out0 = stdout_bytes();
  if (faulty) {
    u64 n = 1 + ref.allocs;
    if (policy_rng().chance(0.5)) policy_alloc(n);
    if (ref.plans && policy_rng().chance(0.4)) policy_fft(ref.plans);
  }
  u64 f0 = fired("memory-request-fails") + fired("fft-plan-fails");
  Res res = run_call(c);
  bool ff = fired("memory-request-fails") + fired("fft-plan-fails") > f0;
  set_faults(false);
  mem_policy.fail_mode = 0;
  note("%s: %llu hook calls, %zu characters, status %d", c.str().c_str(), (unsigned long long)hook_calls(), text.size(), res.status);
  state(mix(c.type, c.verbose * 4 + (hook_calls() > 0) * 2 + ff));
  if (stdout_bytes() != out0)
    violation("stdout", "%s wrote to standard output although a print hook is installed: \"%s\"", c.str().c_str(), last_stdout.c_str());
  std::string why;
  if (!ff && !res.same(ref, 0, &why)) violation("hook-changes-result", "%s with a print hook that misbehaves: %s", c.str().c_str(), why.c_str());
  if (!ff && !res.same(quiet, 0, &why)) violation("verbosity-changes-result", "%s gives another result when it reports progress: %s", c.str().c_str(), why.c_str());
  if (!c.verbose && !c.l1.cg_verbose && !text.empty()) {
    bool warn = false;
    for (const char* w : {"fail", "Fail", "arning", "nable", "rror"}) warn |= text.find(w) != std::string::npos;
    if (!warn) violation("not-silent", "%s printed \"%.60s\" although verbosity is 0", c.str().c_str(), text.c_str());
  }
  if (!ff && c.verbose == 1 && res.status == 0 && verbose_call(c.type) && text.empty()) {
    bool some = c.type == K_CG || c.type == K_CGP ? c.a >= 1 : c.l1.lbiter != 0 || c.type == K_NESTA_OWN || c.type == K_NESTA_TV || c.type == K_NESTA_MAT;
    if (some) violation("silent", "%s reported no progress although verbosity is 1", c.str().c_str());
  }
  // the hook can be exchanged; the previous one is returned, also if it is the same
  if (workp(0.3) && l1c_replace_printf(sim_hook_printf) != sim_hook_printf) violation("hook-api", "l1c_replace_printf did not return the hook in use, which is the one installed again");
  if (l1c_replace_printf(other_hook) != sim_hook_printf) violation("hook-api", "l1c_replace_printf did not return the hook in use");
  g_other = 0;
  u64 h0 = hook_calls();
  if (workp(0.5)) {
    Call d = gen_call(BIT(K_CG) | BIT(K_CGP));
    if (d.a < 1) d.a = 1;
    d.verbose = 1;
    run_call(d);
    if (hook_calls() != h0) violation("hook-api", "output still goes to a hook that was replaced");
    if (!g_other) violation("hook-api", "output did not go to the hook installed last");
  }
  if (l1c_replace_printf(before) != other_hook) violation("hook-api", "l1c_replace_printf did not return the hook in use");
  if (stdout_bytes() != out0) violation("stdout", "standard output was written although a print hook is installed: \"%s\"", last_stdout.c_str());
  hook_capture(nullptr);
  heap_check_canaries();
}

// ------------------------------------------------------------------ C10
static void c10() {
  Call c = gen_call(M_ALL);
  if (workp(0.5)) c.verbose = 1;
  Res ref = fresh_call(c);
  clock_policy.mode = 1;
  policy_mem();
  l1c_printf_t* before = l1c_replace_printf(sim_hook_printf);
  int reps = (int)work(1, 2);
  for (int i = 0; i < reps; i++) {
    u64 b0 = resources();
    Res res = run_call(c);
    std::string why;
    note("%s: %llu clock readings so far, status %d", c.str().c_str(), (unsigned long long)clock_reads(), res.status);
    state(mix(c.type, (clock_reads() > 0) * 4 + i));
    if (!res.same(ref, 0, &why)) violation("clock-dependent", "%s while the clock jumped: %s", c.str().c_str(), why.c_str());
    if (resources() != b0) violation("leak", "%s left %lld resource(s)", c.str().c_str(), (long long)(resources() - b0));
    if (!res.changed.empty()) violation("input-changed", "%s changed %s", c.str().c_str(), res.changed.c_str());
  }
  l1c_replace_printf(before);
  heap_check_canaries();
}
static Reg r08("C08", c08), r09("C09", c09), r10("C10", c10);
} // namespace sim
