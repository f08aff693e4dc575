#include "fw.h"

#include <time.h>

namespace sim {

RunInfo g_run;

string Fmt(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return string(b, std::min<int>(n, sizeof b - 1));
}
string Fl(float f) { return Fmt("%.9g", f); }
vector<string> Split(const string& s, char sep) {
  vector<string> v;
  size_t a = 0;
  for (;;) {
    size_t b = s.find(sep, a);
    if (b == string::npos) {
      v.push_back(s.substr(a));
      return v;
    }
    v.push_back(s.substr(a, b - a));
    a = b + 1;
  }
}
vector<string> Words(const string& s) {
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ') ++i;
    size_t j = i;
    while (j < s.size() && s[j] != ' ') ++j;
    if (j > i) v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}
Lines SplitLines(const string& s) {
  Lines v;
  size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a);
    if (b == string::npos) b = s.size();
    v.push_back(s.substr(a, b - a));
    a = b + 1;
  }
  return v;
}

Opts::Opts(const Lines& l) {
  for (const string& s : l)
    if (s.compare(0, 2, "o ") == 0) {
      size_t k = s.find(' ', 2);
      if (k == string::npos)
        m[s.substr(2)] = "";
      else
        m[s.substr(2, k - 2)] = s.substr(k + 1);
    }
}
string Opts::S(const string& k, const string& d) const {
  auto it = m.find(k);
  return it == m.end() ? d : it->second;
}
int64_t Opts::I(const string& k, int64_t d) const {
  auto it = m.find(k);
  return it == m.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
}
double Opts::D(const string& k, double d) const {
  auto it = m.find(k);
  return it == m.end() ? d : strtod(it->second.c_str(), nullptr);
}

void State(uint64_t h) { g_run.states.push_back(h); }

ExecCfg& Reset() {
  g_sh->cfg = DefaultCfg();
  return g_sh->cfg;
}
void SetScenario(const string& text) {
  if (text.size() > sizeof g_sh->scenario) abort();
  memcpy(g_sh->scenario, text.data(), text.size());
  g_sh->scenario_len = text.size();
}

Exec Do(Target t) {
  Exec e = RunTarget(t);
  if (e.status == EXIT_SIM_ERROR) g_run.error = string("cannot run ") + kTargetName[t];
  if (g_sh->res.vfs_error) g_run.error = Fmt("simulated disk limit hit (%d)", g_sh->res.vfs_error);
  if (g_sh->res.trace_overflow) g_run.error = "trace overflow";
  if (const char* dump = getenv("SIM_DUMP")) {  // debugging aid
    static int n = 0;
    FILE* f = fopen(Fmt("%s.%d", dump, n++).c_str(), "w");
    if (f) {
      fprintf(f, "status %d sched %llx ops %llu\n--out\n%s\n--err\n%s\n--trace\n%s\n", e.status, (unsigned long long)g_sh->res.sched_hash,
              (unsigned long long)g_sh->res.ops_total, e.out.c_str(), e.err.c_str(), e.trace.c_str());
      for (int i = 0; i < kMaxFiles; ++i)
        if (g_sh->disk.f[i].used) fprintf(f, "--file %s %llu %llx\n", g_sh->disk.f[i].path, (unsigned long long)g_sh->disk.f[i].size, (unsigned long long)HashBytes(0, g_sh->data[i], g_sh->disk.f[i].size));
      fclose(f);
    }
  }
  uint64_t& h = g_run.hash;
  h = HashBytes(h, &e.status, sizeof e.status);
  h = HashBytes(h, e.out.data(), e.out.size());
  h = HashBytes(h, e.err.data(), e.err.size());
  h = HashBytes(h, e.trace.data(), e.trace.size());
  h = HashBytes(h, &g_sh->res.sched_hash, sizeof g_sh->res.sched_hash);
  h = HashBytes(h, &g_sh->res.ops_total, sizeof g_sh->res.ops_total);
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_sh->disk.f[i].used) {
      h = HashBytes(h, g_sh->disk.f[i].path, strlen(g_sh->disk.f[i].path));
      h = HashBytes(h, g_sh->data[i], g_sh->disk.f[i].size);
    }
  if (g_sh->res.threads_created) g_run.scheds.push_back(g_sh->res.sched_hash);
  return e;
}

Registry& Checks() {
  static Registry r;
  return r;
}

double NowS() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

Outcome RunScenario(Check* c, const Lines& in, RunInfo* info) {
  g_run = RunInfo();
  Reset();
  DiskReset();
  g_sh->nwops = 0;
  Outcome o = c->Run(in);
  g_run.hash = HashBytes(g_run.hash, o.cls.data(), o.cls.size());
  if (info) *info = g_run;
  return o;
}

Lines Minimise(Check* c, const Lines& in, const string& cls, double budget_s, int* tried) {
  const double t0 = NowS();
  int n = 0;
  auto bad = [&](const Lines& l) {
    ++n;
    RunInfo ri;
    Outcome o = RunScenario(c, l, &ri);
    return o.bad && o.cls == cls && ri.error.empty();
  };
  Lines cur = in;
  bool changed = true;
  auto expired = [&] { return NowS() - t0 > budget_s; };
  while (changed && !expired()) {
    changed = false;
    for (size_t chunk = std::max<size_t>(1, cur.size() / 2);; chunk /= 2) {
      for (size_t i = 0; i < cur.size() && !expired();) {
        Lines cand(cur.begin(), cur.begin() + i);
        cand.insert(cand.end(), cur.begin() + std::min(cur.size(), i + chunk), cur.end());
        // Options only one by one.
        bool has_opt = false;
        for (size_t k = i; k < std::min(cur.size(), i + chunk); ++k) has_opt |= cur[k].compare(0, 2, "o ") == 0;
        if (has_opt && chunk > 1) {
          i += 1;
          continue;
        }
        if (bad(cand)) {
          cur = cand;
          changed = true;
        } else {
          i += chunk;
        }
      }
      if (chunk <= 1 || expired()) break;
    }
  }
  if (tried) *tried = n;
  return cur;
}

// ---------------------------------------------------------------- faults and environment
OpCounts CountOps() {
  OpCounts c;
  const ExecRes& r = g_sh->res;
  for (int k = 0; k < OP_NCLASS; ++k) c.cls[k] = r.op_count[k];
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_sh->disk.f[i].used) {
      vector<uint64_t> v(OP_NCLASS);
      for (int k = 0; k < OP_NCLASS; ++k) v[k] = r.file_ops[k][i];
      c.file[g_sh->disk.f[i].path] = v;
    }
  return c;
}

static int Lookup(const char* const* names, int n, const string& s) {
  for (int i = 0; i < n; ++i)
    if (s == names[i]) return i;
  return -1;
}

string FaultLine(const string& phase, int op, int where, int kind, int64_t param, const string& file) {
  return Fmt("fault %s %s %d %s %lld %s", phase.c_str(), kOpClassName[op], where, kFaultKindName[kind],
             (long long)param, file.c_str());
}

void ApplyFaults(const Lines& in, const string& phase, const OpCounts& base) {
  for (const string& s : in) {
    if (s.compare(0, 6, "fault ") != 0) continue;
    vector<string> w = Words(s);
    if (w.size() < 6 || w[1] != phase) continue;
    int op = Lookup(kOpClassName, OP_NCLASS, w[2]);
    int kind = Lookup(kFaultKindName, FK_NKIND, w[4]);
    if (op < 0 || kind < 0) continue;
    string file = w.size() > 6 ? w[6] : "";
    uint64_t total = base.cls[op];
    if (!file.empty()) {
      total = 0;
      for (const auto& kv : base.file)
        if (kv.first.size() >= file.size() && kv.first.compare(kv.first.size() - file.size(), string::npos, file) == 0)
          total += kv.second[op];
    }
    uint64_t where = strtoull(w[3].c_str(), nullptr, 10);
    // 0..9999: a fraction of the operations of the undisturbed run (plus one past the end).
    uint64_t nth = total ? where * (total + 1) / 10000 : 0;
    if (nth > 0 && nth == total && (where & 1)) nth = total - 1;
    AddFault(op, nth, kind, strtoll(w[5].c_str(), nullptr, 10), file.c_str());
  }
}

void ApplyEnv(const Lines& in, const string& phase) {
  ExecCfg& c = g_sh->cfg;
  for (const string& s : in) {
    if (s.compare(0, 4, "env ") != 0) continue;
    vector<string> w = Words(s);
    if (w.size() < 4 || w[1] != phase) continue;
    const string& k = w[2];
    const long long v = strtoll(w[3].c_str(), nullptr, 10);
    if (k == "rchunk") c.chunk_read_seed = v, c.chunk_max = w.size() > 4 ? atoi(w[4].c_str()) : 0, c.chunk_intr |= w.size() > 5 ? 1 : 0;
    if (k == "wchunk") c.chunk_write_seed = v, c.chunk_max = w.size() > 4 ? atoi(w[4].c_str()) : 0, c.chunk_intr |= w.size() > 5 ? 2 : 0;
    if (k == "capacity") c.disk_capacity = v;
    if (k == "clock") c.clock_start_ns = v * 1000000000LL;
    if (k == "clockseed") c.clock_seed = v;
    if (k == "fill") c.fill_byte = v;
    if (k == "tz") snprintf(c.tz, sizeof c.tz, "%s", w[3].c_str());
    if (k == "cpus") c.cpus = v;
    if (k == "alloc") c.alloc_fail_at = v, c.alloc_fail_min = w.size() > 4 ? atoi(w[4].c_str()) : 0;
  }
}

}  // namespace sim
