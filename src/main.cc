// Driver: seeded search, minimisation, replay, evidence.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>

#include "fw.h"

namespace sim {

static string g_bin, g_root;

static uint64_t RunSeed(uint64_t seed, const string& id, uint64_t i) {
  SplitMix m(HashBytes(seed * 0x9e3779b97f4a7c15ULL + 0x1234567, id.data(), id.size()));
  m.s ^= i * 0xd1342543de82ef95ULL;
  m.Next();
  return m.Next();
}
static Lines Gen(Check* c, uint64_t seed, uint64_t i) {
  Rng r(RunSeed(seed, c->id, i));
  Lines l;
  c->Generate(r, l);
  return l;
}

struct Found {
  string cls, detail, key;
};
static std::set<string> LoadKnown(const string& id) {
  std::set<string> k;
  FILE* f = fopen((g_root + "/known_findings.txt").c_str(), "r");
  if (!f) return k;
  char b[4096];
  while (fgets(b, sizeof b, f)) {
    string s = b;
    while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    // finding: property=<id> key=<key> <text>
    if (s.compare(0, 8, "finding:") != 0) continue;
    vector<string> w = Words(s.substr(8));
    if (w.size() < 2 || w[0] != "property=" + id || w[1].compare(0, 4, "key=") != 0) continue;
    string key = w[1].substr(4), text;
    for (size_t i = 2; i < w.size(); ++i) text += (i > 2 ? " " : "") + w[i];
    k.insert(key + "\t" + text);
  }
  fclose(f);
  return k;
}
static bool IsKnown(const std::set<string>& k, const string& key) {
  if (key.empty()) return false;
  auto it = k.lower_bound(key + "\t");
  return it != k.end() && it->compare(0, key.size() + 1, key + "\t") == 0;
}

struct Ctl {
  std::atomic<uint64_t> lowest;
  std::atomic<uint64_t> progress;
};

struct Agg {
  uint64_t runs = 0, nontrivial = 0, errors = 0, minimised_runs = 0;
  Totals tot;
  std::unordered_set<uint64_t> hashes, states, scheds;
  std::map<string, uint64_t> probes;
  std::set<string> known_hit;
  string error;
};

static void WriteAll(int fd, const string& s) {
  size_t k = 0;
  while (k < s.size()) {
    ssize_t n = write(fd, s.data() + k, s.size() - k);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) _exit(3);
    k += n;
  }
}

static string Ser(const Agg& a) {
  string s = Fmt("runs %llu\nnontrivial %llu\nerrors %llu\n", (unsigned long long)a.runs, (unsigned long long)a.nontrivial,
                 (unsigned long long)a.errors);
  s += Fmt("tot %llu %llu %llu %llu", (unsigned long long)a.tot.execs, (unsigned long long)a.tot.sim_ns,
           (unsigned long long)a.tot.ops, (unsigned long long)a.tot.accesses);
  for (int i = 0; i < TG_NTARGET; ++i) s += Fmt(" %llu", (unsigned long long)a.tot.by_target[i]);
  for (int i = 0; i < ST_NSTAT; ++i) s += Fmt(" %llu", (unsigned long long)a.tot.stat[i]);
  s += "\n";
  for (uint64_t h : a.hashes) s += Fmt("h %llx\n", (unsigned long long)h);
  for (uint64_t h : a.states) s += Fmt("s %llx\n", (unsigned long long)h);
  for (uint64_t h : a.scheds) s += Fmt("t %llx\n", (unsigned long long)h);
  for (const auto& kv : a.probes) s += Fmt("p %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
  for (const auto& k : a.known_hit) s += "k " + k + "\n";
  if (!a.error.empty()) s += "e " + a.error + "\n";
  s += "done\n";
  return s;
}
static bool Merge(const string& text, Agg* a) {
  bool done = false;
  for (const string& l : SplitLines(text)) {
    if (l.compare(0, 2, "h ") == 0)
      a->hashes.insert(strtoull(l.c_str() + 2, nullptr, 16));
    else if (l.compare(0, 2, "s ") == 0)
      a->states.insert(strtoull(l.c_str() + 2, nullptr, 16));
    else if (l.compare(0, 2, "t ") == 0)
      a->scheds.insert(strtoull(l.c_str() + 2, nullptr, 16));
    else if (l.compare(0, 2, "k ") == 0)
      a->known_hit.insert(l.substr(2));
    else if (l.compare(0, 2, "e ") == 0)
      a->error = l.substr(2);
    else if (l.compare(0, 2, "p ") == 0) {
      char* e;
      uint64_t n = strtoull(l.c_str() + 2, &e, 10);
      a->probes[e + 1] += n;
    } else if (l == "done")
      done = true;
    else {
      vector<string> w = Words(l);
      auto u = [&](size_t i) { return strtoull(w[i].c_str(), nullptr, 10); };
      if (w.size() == 2 && w[0] == "runs") a->runs += u(1);
      if (w.size() == 2 && w[0] == "nontrivial") a->nontrivial += u(1);
      if (w.size() == 2 && w[0] == "errors") a->errors += u(1);
      if (w.size() == 5 + TG_NTARGET + ST_NSTAT && w[0] == "tot") {
        a->tot.execs += u(1), a->tot.sim_ns += u(2), a->tot.ops += u(3), a->tot.accesses += u(4);
        for (int i = 0; i < TG_NTARGET; ++i) a->tot.by_target[i] += u(5 + i);
        for (int i = 0; i < ST_NSTAT; ++i) a->tot.stat[i] += u(5 + TG_NTARGET + i);
      }
    }
  }
  return done;
}

static void Worker(Check* c, uint64_t seed, uint64_t n, int w, int nw, double deadline, Ctl* ctl, int fd) {
  ExecInit(g_bin);
  const std::set<string> known = LoadKnown(c->id);
  Agg a;
  for (uint64_t i = w; i < n; i += nw) {
    if (i > ctl->lowest.load() || NowS() > deadline) break;
    Lines l = Gen(c, seed, i);
    RunInfo ri;
    Outcome o = RunScenario(c, l, &ri);
    ++a.runs;
    ctl->progress++;
    if (!ri.error.empty()) {
      ++a.errors;
      a.error = Fmt("run %llu: ", (unsigned long long)i) + ri.error;
      continue;
    }
    if (!o.trivial) {
      ++a.nontrivial;
      a.hashes.insert(ri.hash);
    }
    for (uint64_t h : ri.states) a.states.insert(h);
    for (uint64_t h : ri.scheds) a.scheds.insert(h);
    for (const auto& kv : ri.probes) a.probes[kv.first] += kv.second;
    if (o.bad) {
      if (IsKnown(known, o.key)) {
        a.known_hit.insert(o.key);
        continue;
      }
      uint64_t cur = ctl->lowest.load();
      while (i < cur && !ctl->lowest.compare_exchange_weak(cur, i)) {
      }
    }
  }
  a.tot = g_tot;
  WriteAll(fd, Ser(a));
  _exit(0);
}

// Runs the workers and merges what they covered. Returns false on simulator trouble.
static bool Search(Check* c, uint64_t seed, uint64_t n, int nw, double budget, uint64_t* lowest, Agg* agg) {
  Ctl* ctl = (Ctl*)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl->lowest = ~0ull;
  ctl->progress = 0;
  const double deadline = NowS() + budget;
  vector<int> fds;
  vector<pid_t> pids;
  fflush(stdout);
  for (int w = 0; w < nw; ++w) {
    int p[2];
    if (pipe(p)) return false;
    pid_t pid = fork();
    if (pid < 0) return false;
    if (pid == 0) {
      ::close(p[0]);
      for (int fd : fds) ::close(fd);
      Worker(c, seed, n, w, nw, deadline, ctl, p[1]);
    }
    ::close(p[1]);
    fds.push_back(p[0]);
    pids.push_back(pid);
  }
  bool ok = true;
  vector<string> text(nw);
  vector<bool> open(nw, true);
  int left = nw;
  while (left) {
    vector<struct pollfd> pf;
    vector<int> idx;
    for (int w = 0; w < nw; ++w)
      if (open[w]) pf.push_back({fds[w], POLLIN, 0}), idx.push_back(w);
    if (poll(pf.data(), pf.size(), -1) < 0 && errno != EINTR) break;
    for (size_t k = 0; k < pf.size(); ++k)
      if (pf[k].revents) {
        char b[65536];
        ssize_t r = read(pf[k].fd, b, sizeof b);
        if (r > 0)
          text[idx[k]].append(b, r);
        else if (r == 0 || errno != EINTR)
          open[idx[k]] = false, --left;
      }
  }
  for (int w = 0; w < nw; ++w) {
    ::close(fds[w]);
    int st;
    waitpid(pids[w], &st, 0);
    if (!Merge(text[w], agg)) {
      ok = false;
      if (agg->error.empty()) agg->error = Fmt("worker %d ended with wait status %x", w, st);
    }
  }
  if (agg->errors) ok = false;
  *lowest = ctl->lowest.load();
  munmap(ctl, sizeof(Ctl));
  return ok;
}

// ---------------------------------------------------------------- replay files
struct Replay {
  string id, cls, detail, hash;
  uint64_t seed = 0, index = 0;
  Lines lines;
};
static string Hex(uint64_t h) { return Fmt("%016llx", (unsigned long long)h); }
static bool SaveReplay(const string& path, const Replay& r, const string& note) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  fprintf(f, "# Replay of one simulated run: ./check --replay %s\n# %s\n", path.c_str(), note.c_str());
  fprintf(f, "property %s\nseed %llu\nrun %llu\nclass %s\nhash %s\ndetail %s\nscenario\n", r.id.c_str(),
          (unsigned long long)r.seed, (unsigned long long)r.index, r.cls.c_str(), r.hash.c_str(), r.detail.c_str());
  for (const string& l : r.lines) fprintf(f, "%s\n", l.c_str());
  return fclose(f) == 0;
}
static bool LoadReplay(const string& path, Replay* r) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  string all;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
  fclose(f);
  bool body = false;
  for (const string& l : SplitLines(all)) {
    if (body)
      r->lines.push_back(l);
    else if (l == "scenario")
      body = true;
    else if (l.compare(0, 9, "property ") == 0)
      r->id = l.substr(9);
    else if (l.compare(0, 6, "class ") == 0)
      r->cls = l.substr(6);
    else if (l.compare(0, 5, "hash ") == 0)
      r->hash = l.substr(5);
    else if (l.compare(0, 7, "detail ") == 0)
      r->detail = l.substr(7);
  }
  return body && !r->id.empty();
}
static string OneLine(string s) {
  for (char& ch : s)
    if (ch == '\n' || ch == '\r') ch = ' ';
  return s;
}

static int DoReplay(const string& path, bool quiet) {
  Replay r;
  if (!LoadReplay(path, &r) || !Checks().count(r.id)) {
    printf("cannot read replay file %s\n", path.c_str());
    return 2;
  }
  ExecInit(g_bin);
  RunInfo ri;
  Outcome o = RunScenario(Checks()[r.id], r.lines, &ri);
  if (!ri.error.empty()) {
    printf("simulator error: %s\n", ri.error.c_str());
    return 2;
  }
  if (!quiet) printf("property %s\nhash %s (recorded %s)\n", r.id.c_str(), Hex(ri.hash).c_str(), r.hash.c_str());
  if (!o.bad) {
    printf("the violation does not occur (class was %s)\n", r.cls.c_str());
    return 0;
  }
  printf("class %s\ndetail %s\n", o.cls.c_str(), OneLine(o.detail).c_str());
  if (o.cls != r.cls || Hex(ri.hash) != r.hash) {
    printf("a violation occurs, but not the recorded one\n");
    return 3;
  }
  if (!quiet) printf("VIOLATION property=%s replay=%s\n", r.id.c_str(), path.c_str());
  return 1;
}

// In a child: shrink, gate, and write the replay file. Exit code 0: written.
static int Shrink(Check* c, uint64_t seed, uint64_t index, const string& path, double budget, int fd) {
  ExecInit(g_bin);
  Lines orig = Gen(c, seed, index);
  RunInfo r1, r2;
  Outcome o1 = RunScenario(c, orig, &r1), o2 = RunScenario(c, orig, &r2);
  if (!o1.bad || !o2.bad || r1.hash != r2.hash) {
    WriteAll(fd, Fmt("run %llu is not repeatable (%d/%d, %s/%s)", (unsigned long long)index, o1.bad, o2.bad,
                     Hex(r1.hash).c_str(), Hex(r2.hash).c_str()));
    return 2;
  }
  int tried = 0;
  Lines start = c->Concretise(orig);
  RunInfo rc;
  Outcome oc = RunScenario(c, start, &rc);
  if (!oc.bad || oc.cls != o1.cls) start = orig;
  Lines min = Minimise(c, start, o1.cls, budget, &tried);
  for (const Lines* cand : {&min, &start, &orig}) {
    RunInfo a, b;
    Outcome oa = RunScenario(c, *cand, &a), ob = RunScenario(c, *cand, &b);
    if (!oa.bad || !ob.bad || a.hash != b.hash || oa.cls != ob.cls) continue;
    Replay rp;
    rp.id = c->id, rp.seed = seed, rp.index = index, rp.cls = oa.cls, rp.detail = OneLine(oa.detail), rp.hash = Hex(a.hash);
    rp.lines = *cand;
    if (!SaveReplay(path, rp, Fmt("minimised from %zu to %zu scenario lines in %d runs", orig.size(), cand->size(), tried)))
      continue;
    // Fresh process.
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 1);
      string exe = g_bin + "/sim";
      execl(exe.c_str(), exe.c_str(), "replay", path.c_str(), (char*)nullptr);
      _exit(9);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
      WriteAll(fd, Fmt("%s: %s\n", rp.cls.c_str(), rp.detail.c_str()));
      return 0;
    }
    WriteAll(fd, Fmt("fresh-process replay ended with %x; ", st));
  }
  WriteAll(fd, "no candidate replays exactly");
  return 2;
}

static string Json(const string& s) {
  string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      o += '\\', o += ch;
    else if (ch < 32 || ch > 126)
      o += Fmt("\\u%04x", ch);
    else
      o += ch;
  }
  return o + "\"";
}

static int DoCheck(const string& id, int argc, char** argv) {
  if (!Checks().count(id)) {
    printf("unknown property %s\n", id.c_str());
    return 2;
  }
  Check* c = Checks()[id];
  string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  int64_t runs = -1;
  int nw = 8;
  double budget = -1;
  for (int i = 0; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--tier") tier = v;
    if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    if (k == "--runs") runs = atoll(v.c_str());
    if (k == "--workers") nw = atoi(v.c_str());
    if (k == "--budget") budget = atof(v.c_str());
  }
  if (tier != "thorough") tier = "quick";
  const bool thorough = tier == "thorough";
  if (runs < 0) runs = thorough ? c->thorough_runs : c->quick_runs;
  if (budget < 0) budget = thorough ? 660 : 200;
  printf("property %s seed %llu tier %s runs %lld\n", id.c_str(), (unsigned long long)seed, tier.c_str(), (long long)runs);
  fflush(stdout);
  const double t0 = NowS();
  const std::set<string> known = LoadKnown(id);
  Agg agg;
  uint64_t lowest = ~0ull;
  if (!Search(c, seed, runs, nw, budget, &lowest, &agg)) {
    printf("simulator error: %s\n", agg.error.c_str());
    return 2;
  }
  const double t1 = NowS();
  int violations = 0, rc = 0;
  if (lowest != ~0ull) {
    mkdir((g_root + "/replays").c_str(), 0777);
    const string path = g_root + "/replays/" + id + "-" + std::to_string(seed) + "-" + std::to_string(lowest) + ".txt";
    int p[2];
    if (pipe(p)) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      ::close(p[0]);
      _exit(Shrink(c, seed, lowest, path, thorough ? 120 : 60, p[1]));
    }
    ::close(p[1]);
    string msg;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) msg.append(b, n);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      printf("simulator error: violation in run %llu could not be reproduced exactly: %s\n", (unsigned long long)lowest, msg.c_str());
      return 2;
    }
    violations = 1;
    rc = 1;
    printf("run %llu violates %s: %s", (unsigned long long)lowest, id.c_str(), msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
  }
  // Every listed finding is announced; whether it was met in this run goes into the evidence.
  for (const string& k : known) {
    const size_t t = k.find('\t');
    printf("KNOWN-FINDING: property=%s %s (key %s)\n", id.c_str(), k.substr(t + 1).c_str(), k.substr(0, t).c_str());
  }
  // Evidence.
  string ev = "{\n";
  ev += Fmt(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", id.c_str(), tier.c_str(),
            (unsigned long long)seed, c->level.c_str());
  ev += " \"coverage\": {\n";
  ev += Fmt("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)agg.runs, agg.hashes.size());
  ev += "  \"rule\": " + Json(c->rule + "; distinct: by the hash over every status, output, trace, schedule and disk image of the run") + ",\n";
  ev += "  \"samples\": [";
  for (int i = 0; i < 3 && i < runs; ++i) {
    Lines l = Gen(c, seed, i);
    ev += string(i ? ",\n   " : "\n   ") + "[";
    size_t m = std::min<size_t>(l.size(), 40);
    for (size_t k = 0; k < m; ++k) ev += (k ? ", " : "") + Json(l[k].substr(0, 300));
    if (m < l.size()) ev += ", " + Json(Fmt("... %zu more lines", l.size() - m));
    ev += "]";
  }
  ev += "\n  ],\n";
  const double h = std::max(1e-9, (t1 - t0) / 3600);
  ev += Fmt("  \"requested_runs\": %lld,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", (long long)runs, agg.runs / h, agg.runs / h);
  ev += Fmt("  \"simulated_processes\": %llu,\n  \"simulated_clock_seconds\": %.3f,\n", (unsigned long long)agg.tot.execs, agg.tot.sim_ns * 1e-9);
  ev += Fmt("  \"io_operations_simulated\": %llu,\n  \"instrumented_memory_accesses\": %llu,\n", (unsigned long long)agg.tot.ops,
            (unsigned long long)agg.tot.accesses);
  ev += "  \"faults_injected\": {";
  for (int i = 0; i < ST_NSTAT; ++i) ev += Fmt("%s\"%s\": %llu", i ? ", " : "", kStatName[i], (unsigned long long)agg.tot.stat[i]);
  ev += "},\n";
  ev += Fmt("  \"distinct_states\": %zu,\n", agg.states.size());
  ev += "  \"state_measure\": " + Json(c->state_measure) + ",\n";
  ev += Fmt("  \"distinct_interleavings\": %zu,\n  \"interleaving_measure\": \"hash over every scheduling decision (thread, point) of a multi-threaded execution\",\n", agg.scheds.size());
  ev += "  \"probes\": {";
  bool first = true;
  for (const auto& kv : agg.probes) {
    ev += string(first ? "" : ", ") + Json(kv.first) + Fmt(": %llu", (unsigned long long)kv.second);
    first = false;
  }
  ev += "},\n";
  ev += "  \"processes_by_program\": {";
  for (int i = 0; i < TG_NTARGET; ++i) ev += Fmt("%s\"%s\": %llu", i ? ", " : "", kTargetName[i], (unsigned long long)agg.tot.by_target[i]);
  ev += "},\n  \"components\": [";
  for (size_t i = 0; i < c->components.size(); ++i) ev += (i ? ", " : "") + Json(c->components[i]);
  ev += "],\n  \"known_findings_met\": [";
  first = true;
  for (const string& k : agg.known_hit) ev += (first ? "" : ", ") + Json(k), first = false;
  ev += "]\n },\n";
  ev += " \"assumptions\": [\"the simulated disk, clock and scheduler stand for the real ones\", \"GCC 13 -O1 code with a preemption point before every instrumented memory access (sequential consistency, no compiler-visible data-race effects beyond it)\", \"sampling: a clean batch is evidence, not proof\"],\n";
  ev += Fmt(" \"wall_s\": %.3f,\n \"violations\": %d\n}\n", NowS() - t0, violations);
  mkdir((g_root + "/evidence").c_str(), 0777);
  const string evp = g_root + "/evidence/" + id + ".json";
  FILE* f = fopen(evp.c_str(), "w");
  if (!f || fwrite(ev.data(), 1, ev.size(), f) != ev.size() || fclose(f)) {
    printf("cannot write %s\n", evp.c_str());
    return 2;
  }
  printf("%s: %llu runs (%zu distinct non-trivial), %llu simulated processes, %.1f s, %d violation(s)\n", id.c_str(),
         (unsigned long long)agg.runs, agg.hashes.size(), (unsigned long long)agg.tot.execs, t1 - t0, violations);
  return rc;
}

static int DoDet(const string& id, int argc, char** argv) {
  // Prints "<run> <hash>" for runs a, a+step, ... (one process); diff of two outputs shows any leak.
  uint64_t seed = 1, from = 0, n = 100, step = 1;
  for (int i = 0; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    if (k == "--from") from = strtoull(v.c_str(), nullptr, 10);
    if (k == "--runs") n = strtoull(v.c_str(), nullptr, 10);
    if (k == "--step") step = strtoull(v.c_str(), nullptr, 10);
  }
  ExecInit(g_bin);
  for (uint64_t i = from; i < n; i += step) {
    RunInfo ri;
    Outcome o = RunScenario(Checks()[id], Gen(Checks()[id], seed, i), &ri);
    printf("%llu %s %d %s\n", (unsigned long long)i, Hex(ri.hash).c_str(), o.bad, ri.error.c_str());
  }
  fflush(stdout);
  return 0;
}

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // Fixed addresses: one seed is one execution down to the addresses.
  if (!getenv("SIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  g_bin = n > 0 ? string(exe, n) : argv[0];
  g_bin = g_bin.substr(0, g_bin.rfind('/'));
  g_root = getenv("SIM_ROOT") ? getenv("SIM_ROOT") : g_bin.substr(0, g_bin.rfind('/'));
  static char outbuf[1 << 16];
  setvbuf(stdout, outbuf, _IOLBF, sizeof outbuf);
  if (argc < 3) {
    fprintf(stderr, "usage: sim check ID ... | replay FILE | gen ID SEED RUN | det ID ... | targets ID\n");
    return 2;
  }
  const string cmd = argv[1];
  if (cmd == "zygote") return ZygoteMain(atoi(argv[2]), g_bin);
  if (cmd == "check") return DoCheck(argv[2], argc - 3, argv + 3);
  if (cmd == "replay") return DoReplay(argv[2], false);
  if (cmd == "det") return DoDet(argv[2], argc - 3, argv + 3);
  if (!Checks().count(argv[2])) return 2;
  if (cmd == "targets") {
    for (Target t : Checks()[argv[2]]->targets) printf("%s ", kTargetName[t]);
    printf("\n");
    return 0;
  }
  if (cmd == "gen") {
    for (const string& s : Gen(Checks()[argv[2]], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10)))
      printf("%s\n", s.c_str());
    return 0;
  }
  return 2;
}
