// Checks of the programs as a whole: C13 logs, C14 independence of the environment.
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {

static const char kXLog[] = "/sim/x.log", kTLog[] = "/sim/t.log";

static string LogOf(const char* path) {
  string b;
  return DiskGet(path, &b) ? b : string("(missing)");
}
static string DiffLines(const string& got, const string& want) {
  if (got == want) return "";
  vector<string> a = SplitLines(got), b = SplitLines(want);
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
    if (i >= a.size() || i >= b.size() || a[i] != b[i])
      return Fmt("row %zu is \"%.140s\", expected \"%.140s\"", i, i < a.size() ? a[i].c_str() : "missing", i < b.size() ? b[i].c_str() : "nothing");
  return "the last row is not terminated";
}
static void GenProgram(Rng& r, Lines* out, int max_ticks, bool full = false, bool mass = false) {
  EngGen g;
  g.full = full;
  g.style = 1;
  g.side = r.Chance(1, 3);
  g.max_ticks = max_ticks;
  g.outage = 400;
  g.mass = mass;
  vector<Ohlc> t = GenEngTicks(r, g);
  for (auto& x : t) out->push_back(TickLine(x));
  if (g.side) for (auto& x : GenEngSide(r, t)) out->push_back(SideLine(x));
  out->push_back(string("o factory ") + r.PickOf({"rebalancing", "stop"}));
  if (r.Chance(1, 2)) {
    out->push_back("o start_base " + string(r.PickOf({"0", "1", "2.5", "0.001", "100"})));
    out->push_back("o start_quote " + string(r.PickOf({"0.01", "100", "2500.25", "1000000"})));
  }
  if (r.Chance(1, 3)) {
    out->push_back("o liq " + string(r.PickOf({"0", "0.5", "1", "0.9"})));
    out->push_back("o vol " + string(r.PickOf({"0.01", "0.5", "1"})));
  }
  int64_t a = t.empty() ? 1500000000 : t.front().ts, b = t.empty() ? a : t.back().ts + 1;
  if (r.Chance(1, 3) && !t.empty()) a = t[r.Below(t.size())].ts + r.PickOf({0, 1});
  if (r.Chance(1, 3) && !t.empty()) b = t[r.Below(t.size())].ts + r.PickOf({0, 1});
  if (r.Chance(1, 40)) b = a;
  out->push_back(Fmt("o start %lld", (long long)a));
  out->push_back(Fmt("o end %lld", (long long)b));
}
static vector<string> ProgramArgs(const Opts& o, bool side) {
  vector<string> more = {"--trader=" + o.S("factory", "stop"), "--start_time=" + TimeText(o.I("start")), "--end_time=" + TimeText(o.I("end"))};
  for (auto& kv : vector<std::pair<string, string>>{{"start_base", "start_base_balance"}, {"start_quote", "start_quote_balance"}, {"liq", "market_liquidity"}, {"vol", "max_volume_ratio"}})
    if (o.Has(kv.first)) more.push_back("--" + kv.second + "=" + o.S(kv.first));
  if (o.I("months")) more.push_back(Fmt("--evaluation_period_months=%d", (int)o.I("months")));
  const string logs = o.S("logs");
  if (logs.find('x') != string::npos) more.push_back(string("--output_exchange_log_file=") + kXLog);
  if (logs.find('t') != string::npos) more.push_back(string("--output_trader_log_file=") + kTLog);
  if (o.I("batch")) more.push_back("--evaluate_batch");
  return TraderArgs(side, more);
}
static bool ValidSide(const vector<Side>& side) {
  for (size_t i = 0; i < side.size(); ++i)
    if (side[i].s.empty() || side[i].s.size() != side[0].s.size() || side[i].ts < 1 || (i && side[i].ts <= side[i - 1].ts)) return false;
  return true;
}
static bool Increasing(const vector<Ohlc>& t) {
  for (size_t i = 1; i < t.size(); ++i) if (t[i].ts <= t[i - 1].ts) return false;
  return true;
}

// ================================================================ C13
class C13 : public Check {
 public:
  C13() {
    id = "C13";
    rule = "backtests with one or both logs over histories with outages of up to 900 ticks, on old logs of any size; the log files meet write, "
           "open and close errors, a disk that fills up, short and interrupted writes, kills, failing allocations; a killed or failed run is "
           "repeated; the logs are compared with rows rebuilt from the recorded history of the engine, whose structure is judged by a model; "
           "non-trivial: a fault hit a log, or both logs have rows of executed orders";
    components = {"real: trader.cc, logging/, eval/, base/, traders/, util/proto.h, libstdc++ streams", "stub: disk, clock, time zone, memory fill; recording logger for the rebuilt rows (adapters/engine.cc)"};
    state_measure = "distinct (fault, outcome, logs)";
    targets = {TG_ENGINE, TG_TRADER};
    quick_runs = 36000;
    thorough_runs = 150000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool full = r.Chance(1, 60);  // thousands of orders
    GenProgram(r, &out, full ? 4000 : r.PickOf({5, 60, 150, 400, 900}), full, !full && r.Chance(1, 600));
    out.push_back(string("o logs ") + r.PickOf({"x", "t", "xt", "xt", "xt"}));
    if (r.Chance(1, 30)) out.push_back("o months 1");
    for (const char* p : {kXLog, kTLog})
      if (r.Chance(1, 4)) out.push_back(Fmt("old %s %d", p, (int)r.PickOf({0, 1, 5000, 300000})));
    const int nf = r.PickOf({0, 0, 1, 1, 1, 2});
    for (int i = 0; i < nf; ++i) {
      const string file = r.PickOf({".log", "x.log", "t.log"});
      const int where = r.PickOf<int>({0, 9999, 9998, (int)r.Below(10000)});
      switch (r.Below(9)) {
        case 0: case 1: out.push_back(FaultLine("A", OP_WRITE, where, FK_EIO, 0, file)); break;
        case 2: out.push_back(FaultLine("A", OP_WRITE, where, FK_ENOSPC, r.PickOf<int>({0, 1, 100, (int)r.Range(0, 9000)}), file)); break;
        case 3: out.push_back(FaultLine("A", OP_OPEN, where, FK_OPENFAIL, r.PickOf({13, 2, 28, 24, 30}), file)); break;
        case 4: out.push_back(FaultLine("A", OP_CLOSE, where, FK_CLOSEFAIL, 0, file)); break;
        case 5: out.push_back(FaultLine("A", OP_WRITE, where, FK_EINTR, 0, file)); break;
        case 6: out.push_back(FaultLine("A", OP_WRITE, where, FK_SHORT, r.PickOf<int>({1, 9, (int)r.Range(1, 8000)}), file)); break;
        case 7: out.push_back(FaultLine("A", OP_WRITE, where, FK_CRASH, r.PickOf<int>({0, 1, (int)r.Range(0, 8200)}), file)); break;
        case 8:
          if (r.Chance(2, 3))
            out.push_back(Fmt("env A capacity %d", (int)r.PickOf<int>({0, 1, 100, 8190, 8191, 8192, (int)r.Range(0, 40000)})));
          else
            out.push_back(Fmt("env A alloc %d %d", (int)r.Range(0, 400), r.PickOf({64, 512, 4096, 8192})));
          break;
      }
    }
    if (r.Chance(1, 20)) out.push_back(FaultLine("A", OP_RENAME, 0, r.PickOf({FK_RENAMEFAIL, FK_CRASH}), r.PickOf({5, 13, 18, 28, 30}), ".log"));
    if (r.Chance(1, 3)) GenSoftEnv(r, "A", &out, true, 3);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<Side> side = SideLines(in);
    if ((c.start_base <= 0 && c.start_quote <= 0) || !ValidSide(side) || !Increasing(t) || o.S("logs").empty()) return out.trivial = true, out;
    const int64_t start = o.I("start"), end = o.I("end");
    vector<Ohlc> t1 = InPeriod(t, start, end);
    const bool months = o.I("months") > 0;
    // The rows, from the recorded history of the same evaluation.
    string xlog, tlog;
    size_t trades = 0, updates = 0;
    if (!months) {
      Lines l;
      for (const string& s : in)
        if (s.compare(0, 2, "k ") != 0 && s.compare(0, 2, "i ") != 0 && s.compare(0, 2, "o ") != 0) l.push_back(s);
      for (const char* k : {"start_base", "start_quote", "liq", "vol", "start", "end"})
        if (o.Has(k)) l.push_back(string("o ") + k + " " + o.S(k));
      for (auto& x : t1) l.push_back(TickLine(x));
      for (auto& x : InPeriod(side, start, end)) l.push_back(SideLine(x));
      l.push_back("e " + o.S("factory", "stop") + " fac");
      SetScenario(Join(l) + "o mode eval\n");
      Exec x = Do(TG_ENGINE);
      if (x.status != 0) return out.Fail(x.Hung() ? "hang" : "abort", Fmt("the evaluation ends with status %d: %.200s", x.status, x.err.c_str())), out;
      Eval e = ParseEval(x.trace);
      if (e.sessions.size() != (t1.empty() ? 0 : 1)) return out.Fail("abort", Fmt("%zu windows were executed", e.sessions.size())), out;
      if (!t1.empty()) {
        const Session& s = e.sessions[0];
        Findings f = Follow(c, t1.data(), t1.size(), s);
        if (!f.structure.empty()) return out.Fail("rows", f.structure), out;
        string d = Rows(c, o.S("factory", "stop"), s, &xlog, &tlog, &trades, &updates);
        if (!d.empty()) return out.Fail("rows", d), out;
      }
    }
    const bool wx = o.S("logs").find('x') != string::npos, wt = o.S("logs").find('t') != string::npos;
    Reset();
    DiskReset();
    StoreHistory(t, side);
    for (const string& s : in) {
      vector<string> w = Words(s);
      if (w.size() == 3 && w[0] == "old") DiskPut(w[1], string(atoi(w[2].c_str()), '7'));
    }
    const DiskImage disk0 = SaveDisk();
    auto logs = [&]() -> string {
      string d;
      if (wx && !(d = DiffLines(LogOf(kXLog), xlog)).empty()) return "exchange log: " + d;
      if (wt && !(d = DiffLines(LogOf(kTLog), tlog)).empty()) return "trader log: " + d;
      return "";
    };
    SetArgs(ProgramArgs(o, !side.empty()));
    Exec e0 = Do(TG_TRADER);
    if (months) {
      out.trivial = true;
      if (e0.status == 0) return out.Fail("refused", "the logs of an evaluation of several periods were requested and not refused"), out;
      return out;
    }
    if (e0.status != 0) return out.Fail(e0.Hung() ? "hang" : "spurious-failure", Fmt("the undisturbed backtest ends with status %d: %.200s", e0.status, e0.err.c_str())), out;
    string d = logs();
    if (!d.empty()) return out.Fail("rows", "undisturbed: " + d), out;
    const OpCounts base = CountOps();
    LoadDisk(disk0);
    Reset();
    SetArgs(ProgramArgs(o, !side.empty()));
    ApplyFaults(in, "A", base);
    ApplyEnv(in, "A");
    Exec e1 = Do(TG_TRADER);
    const int hard = FiredHard(".log"), near = FiredHard(".log", true);
    const bool alloc = g_sh->res.stat[ST_ALLOC_FAIL] > 0;
    uint64_t any = 0;
    for (int i = 0; i < ST_NSTAT; ++i) any += i == ST_RANDOM ? 0 : g_sh->res.stat[i];
    out.trivial = !any && !(wx && wt && trades);
    Probe("rows of executed orders", trades);
    State(HashBytes(g_run.hash, &e1.status, 4));
    if (e1.Crashed()) {
      Probe("killed while logging");
    } else if (e1.status == 0) {
      d = logs();
      if (!d.empty()) return out.Fail("lost", Fmt("exit status 0 with %d failed log operations, but %s", hard, d.c_str())), out;
      if (hard) return out.Fail("lost", Fmt("exit status 0 although %d log operations failed", hard)), out;
    } else {
      if (!hard && !near && !alloc && !g_sh->res.stat[ST_EINTR]) return out.Fail("spurious-failure", Fmt("status %d although no operation failed: %.200s", e1.status, e1.err.c_str())), out;
      Probe("failed log was reported");
    }
    if (e1.status != 0) {
      Reset();
      SetArgs(ProgramArgs(o, !side.empty()));
      Exec e2 = Do(TG_TRADER);
      if (e2.status != 0) return out.Fail("repeat-fails", Fmt("the repeated backtest ends with status %d: %.200s", e2.status, e2.err.c_str())), out;
      d = logs();
      if (!d.empty()) return out.Fail("rows", "repeated: " + d), out;
      Probe("repeat after a failed or killed run");
    }
    return out;
  }
  // The rows both logs must have.
  static string Rows(const AccCfg& c, const string& factory, const Session& s, string* x, string* t, size_t* trades, size_t* updates) {
    float base = c.start_base, quote = c.start_quote, fee = 0;
    const vector<Ev>& ev = s.ev;
    for (size_t i = 0; i < ev.size(); ++i) {
      const Ev& e = ev[i];
      if (e.k == 'X') {
        if (!Same(e.base, base) || !Same(e.quote, quote) || !Same(e.fee, fee))
          return Fmt("tick %lld is not logged with the account state before its executions", (long long)e.t.ts);
        *x += LogX(e) + "\n";
      }
      if (e.k == 'F') {
        base = e.base, quote = e.quote, fee = e.fee;
        *x += LogX(e) + "\n";
        ++*trades;
      }
      if (e.k == 'U') {
        ++*updates;
        string row = Fmt("%lld,%.3f,%.3f,%.3f", (long long)e.t.ts, e.base, e.quote, e.t.c);
        size_t k = i + 1;
        for (; k < ev.size() && ev[k].k == 'E'; ++k)
          if (factory == "stop") row += Fmt(",%s,%.3f", ev[k].o.side == 'S' ? "LONG" : "CASH", ev[k].o.price);
        if (k >= ev.size() || ev[k].k != 'T') return Fmt("tick %lld: the state of the strategy is not logged", (long long)e.t.ts);
        if (ev[k].raw.substr(2) != row)
          return Fmt("tick %lld: the logged state of the strategy is \"%.100s\", expected \"%s\"", (long long)e.t.ts, ev[k].raw.substr(2).c_str(), row.c_str());
        *t += row + "\n";
      }
    }
    return "";
  }
};
static Register r13(new C13);

// ================================================================ C14
class C14 : public Check {
 public:
  C14() {
    id = "C14";
    rule = "the same conversion or backtest (single with logs, or batch) is run twice from the same disk under different environments: clock and its "
           "jumps, time zone, split and interrupted reads and writes, number of processors, contents of fresh and released heap memory and of the "
           "stack, thread schedule; exit status, disk and report (durations masked) must be equal; some inputs are garbled or damaged; "
           "non-trivial: the run stored, logged or reported something";
    components = {"real: convert.cc, trader.cc and everything below, libstdc++, protobuf, zlib, abseil", "stub: disk, clock, time zone, CPU count, memory fill, thread scheduler"};
    state_measure = "distinct (environment, result)";
    targets = {TG_CONVERT, TG_TRADER};
    quick_runs = 24000;
    thorough_runs = 150000;
  }
  void Generate(Rng& r, Lines& out) override {
    const int kind = r.Below(8);
    if (kind < 4) {
      out.push_back("o program convert");
      const string k = r.PickOf({"pc", "pc", "pp", "oc", "op", "sc"});
      out.push_back("o kind " + k);
      out.push_back(string("o out ") + (k[0] == 'p' ? r.PickOf({"p", "o", "po"}) : k[0] == 'o' ? "o" : "s"));
      FeedCfg f = FeedCfg::Random(r);
      f.n = r.Chance(1, 8) ? r.Range(300, 2000) : r.Range(0, 60);
      if (f.n > 200 && f.gap_max > 7200) f.gap_max = 7200;
      if (k[0] == 'p') for (auto& t : GenTrades(r, f)) out.push_back("r " + Row(t));
      if (k[0] == 'o') for (auto& t : RandomOhlc(r, f.n)) out.push_back("r " + Row(t));
      if (k[0] == 's') for (auto& t : RandomSide(r, std::min(f.n, 500), f.start)) out.push_back("r " + Row(t));
      if (r.Chance(1, 3)) out.push_back("o start " + TimeText(f.start + r.Range(0, 4000)));
      if (r.Chance(1, 3)) out.push_back("o end " + TimeText(f.start + r.Range(0, 90000)));
      if (r.Chance(1, 3)) out.push_back(Fmt("o rate %d", r.PickOf({60, 3600, 86400})));
      if (r.Chance(1, 6)) {
        const int at = r.Below(out.size() + 1);
        out.insert(out.begin() + at, string("r ") + r.PickOf({"garbage", "", "1500000000", "1500000000,abc,1", "1500000000,1", "1500000000,-1,-1,-1,-1,-1"}));
      }
    } else {
      out.push_back("o program trader");
      GenProgram(r, &out, r.PickOf({5, 60, 150}));
      if (kind >= 6) {
        out.push_back("o batch 1");
        if (r.Chance(1, 2)) out.push_back("o factory rebalancing");
        GenSched(r, &out, false);
      } else {
        out.push_back(string("o logs ") + r.PickOf({"x", "t", "xt", "xt"}));
      }
      if (kind == 7 && r.Chance(1, 2)) out.push_back("o months 1");
    }
    if (r.Chance(1, 8)) out.push_back(Fmt("m flip %d %d", (int)r.Below(1 << 20), (int)r.Below(8)));
    else if (r.Chance(1, 12)) out.push_back(Fmt("m trunc %d", (int)r.Below(1 << 20)));
    GenSoftEnv(r, "A", &out, true, 3);
    GenSoftEnv(r, "B", &out, true, 3);
    if (r.Chance(3, 4)) {
      out.push_back(Fmt("env A fill %d", r.PickOf({0, 0x55, 0x01})));
      out.push_back(Fmt("env B fill %d", r.PickOf({0xFF, 0xAA, 0x7F, 0x3F})));
    }
    if (r.Chance(1, 2)) out.push_back(Fmt("env B clockseed %d", (int)r.Range(1, 1 << 30)));
  }
  Lines Concretise(const Lines& in) override { return SchedMode(in).empty() ? in : ConcretiseSched(this, in); }
  // Durations are the only part of the report that may differ.
  static string Mask(const string& s) {
    string o;
    for (size_t i = 0; i < s.size();) {
      size_t p = s.find(" seconds", i);
      if (p == string::npos) { o += s.substr(i); break; }
      size_t a = p;
      while (a > i && (isdigit((unsigned char)s[a - 1]) || strchr(".-einfa+", s[a - 1]))) --a;
      o += s.substr(i, a - i) + "# seconds";
      i = p + 8;
    }
    return o;
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool trader = o.S("program") == "trader";
    Target target = trader ? TG_TRADER : TG_CONVERT;
    vector<string> args;
    string victim;
    DiskReset();
    Reset();
    if (trader) {
      vector<Ohlc> t = TickLines(in);
      vector<Side> side = SideLines(in);
      AccCfg c = AccCfg::From(o);
      if ((c.start_base <= 0 && c.start_quote <= 0) || !ValidSide(side) || !Increasing(t)) return out.trivial = true, out;
      if (o.I("months") > 0 && (o.I("end") - o.I("start") > 86400LL * 200 || !o.I("batch"))) return out.trivial = true, out;
      StoreHistory(t, side);
      args = ProgramArgs(o, !side.empty());
      victim = "/sim/t.hist";
    } else {
      ConvJob j = ConvJob::From(o);
      Expect e;
      SetInput(j, in, o, &e);
      args = j.Args();
      victim = j.InPath();
    }
    for (const string& s : in) {
      vector<string> w = Words(s);
      if (w.size() < 3 || w[0] != "m") continue;
      string b;
      if (!DiskGet(victim, &b) || b.empty()) continue;
      const size_t at = atoll(w[2].c_str()) % b.size();
      if (w[1] == "trunc") b.resize(at);
      if (w[1] == "flip" && w.size() == 4) b[at] ^= 1 << (atoi(w[3].c_str()) & 7);
      DiskPut(victim, b);
    }
    const DiskImage disk0 = SaveDisk();
    Exec e[2];
    DiskImage disk[2];
    for (int k = 0; k < 2; ++k) {
      LoadDisk(disk0);
      Reset();
      SetArgs(args);
      ApplyEnv(in, k ? "B" : "A");
      if (k && o.I("batch")) ApplySched(in, g_sh->res.access_count);
      e[k] = Do(target);
      if (k && o.I("batch")) SaveSched();
      disk[k] = SaveDisk();
      if (e[k].Hung()) return out.Fail("hang", Fmt("the %s does not end under environment %c", trader ? "backtest" : "conversion", "AB"[k])), out;
    }
    out.trivial = disk[0].size() <= disk0.size() && e[0].out.size() < 200;
    State(HashBytes(g_run.hash, e[0].out.data(), e[0].out.size()));
    Probe(e[0].status ? "input refused" : "input accepted");
    if (e[0].status != e[1].status)
      return out.Fail("status", Fmt("exit status %d under environment A, %d under B: %.100s / %.100s", e[0].status, e[1].status, e[0].err.c_str(), e[1].err.c_str())), out;
    for (int k = 0; k < 2; ++k)
      for (auto& f : disk[k])
        if (!disk[1 - k].count(f.first)) return out.Fail("files", f.first + Fmt(" is only written under environment %c", "AB"[k])), out;
    for (auto& f : disk[0])
      if (disk[1][f.first] != f.second) {
        const string& x = f.second;
        const string& y = disk[1][f.first];
        size_t p = 0;
        while (p < x.size() && p < y.size() && x[p] == y[p]) ++p;
        // Compressed files may only differ in what they hold.
        string a, b, wa, wb;
        if (f.first.find(".out") != string::npos && Gunzip(x, &a, &wa) && Gunzip(y, &b, &wb) && a == b) continue;
        return out.Fail("files", f.first + Fmt(" differs between the environments, from byte %zu (of %zu and %zu)", p, x.size(), y.size())), out;
      }
    for (int k = 0; k < 2; ++k) {
      vector<string> a = SplitLines(Mask(k ? e[0].err : e[0].out)), b = SplitLines(Mask(k ? e[1].err : e[1].out));
      for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        if (i >= a.size() || i >= b.size() || a[i] != b[i])
          return out.Fail("report", Fmt("line %zu of the %s is \"%.120s\" under environment A, \"%.120s\" under B", i, k ? "errors" : "report",
                                        i < a.size() ? a[i].c_str() : "missing", i < b.size() ? b[i].c_str() : "missing")), out;
    }
    return out;
  }
};
static Register r14(new C14);

}  // namespace sim
