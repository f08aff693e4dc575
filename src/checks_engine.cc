// Checks of the backtest engine: C04-C09, C12, C16, C17.
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {

static const char kReal[] = "real: eval/, base/, traders/, indicators/volatility, util/time, protobuf; thin driver and recording logger/strategy proxy (adapters/engine.cc)";
static const char kStub[] = "stub: thread scheduler and thread creation, CPU count, clock, memory fill; scripted strategies";

static Exec RunEngine(const Lines& in, const string& extra) {
  SetScenario(Join(in) + extra);
  return Do(TG_ENGINE);
}
static bool Bad(const Exec& x, Outcome* out, const char* what) {
  if (x.status == 0 && x.trace.size() >= 4 && x.trace.compare(x.trace.size() - 4, 4, "END\n") == 0) return false;
  out->Fail(x.Hung() ? "hang" : "abort", Fmt("%s ends with status %d: %.300s", what, x.status, x.err.c_str()));
  return true;
}
// A complete scenario of one strategy or several on one history.
struct Made {
  vector<Ohlc> ticks;
  vector<Side> side;
};
static Made GenScenario(Rng& r, const EngGen& g, int emitters, int builtin_pct, Lines* out) {
  Made m;
  GenAccount(r, g.style, out);
  m.ticks = GenEngTicks(r, g);
  for (auto& t : m.ticks) out->push_back(TickLine(t));
  if (g.side) {
    m.side = GenEngSide(r, m.ticks);
    for (auto& s : m.side) out->push_back(SideLine(s));
  }
  Opts o(*out);
  for (int i = 0; i < emitters; ++i) {
    if (r.Chance(builtin_pct, 100)) {
      out->push_back(GenBuiltin(r, Fmt("s%d", i)));
    } else {
      out->push_back(Fmt("e s%d script", i));
      GenOrders(r, m.ticks, g.style, o, i, out);
    }
  }
  return m;
}
static bool HasEmitter(const Lines& in) {
  for (const string& s : in)
    if (s.compare(0, 2, "e ") == 0) return true;
  return false;
}
static bool Configure(const AccCfg& c) { return c.start_base > 0 || c.start_quote > 0; }

// ================================================================ C07, C08
class Ledger : public Check {
 public:
  explicit Ledger(bool decide) : decide_(decide) {
    id = decide ? "C08" : "C07";
    rule = string("a scripted strategy sends sequences of market, stop and limit orders, base- and quote-denominated, with prices "
           "on, just inside and just outside of the coming ticks' prices and amounts around units, balances and the volume "
           "share, through random markets with outages; accounts have dyadic (exact), decimal or zero units and different fees "
           "per order type") + (decide ? "; every order is decided by an interval model of the documented rules" :
           "; most ticks have a single price, so that every movement of the balances is determined") +
           "; non-trivial: at least one order executed and one was rejected";
    components = {kReal, kStub};
    state_measure = "distinct (account configuration, sequence of balances)";
    targets = {TG_ENGINE};
    quick_runs = 90000;
    thorough_runs = 400000;
  }
  void Generate(Rng& r, Lines& out) override {
    EngGen g;
    g.style = r.PickOf({0, 0, 1, 1, 2});
    g.flat = decide_ ? r.Chance(1, 6) : r.Chance(3, 4);
    g.mass = 600;
    GenScenario(r, g, 1, 0, &out);
    GenMemEnv(r, "A", &out);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    AccCfg c = AccCfg::From(Opts(in));
    vector<Ohlc> t = TickLines(in);
    if (t.empty() || !HasEmitter(in) || !Configure(c)) return out.trivial = true, out;
    ApplyEnv(in, "A");
    Exec x = RunEngine(in, "o mode exec\n");
    if (Bad(x, &out, "the backtest")) return out;
    Eval e = ParseEval(x.trace);
    if (e.sessions.size() != 1) return out.Fail("abort", "no history was recorded"), out;
    Findings f = Follow(c, t.data(), t.size(), e.sessions[0]);
    out.trivial = f.executed == 0 || f.rejected == 0;
    Probe("orders executed", f.executed);
    Probe("orders rejected", f.rejected);
    Probe("orders too close to call", f.ambiguous);
    Probe("orders carried over a tick without volume", f.carried);
    Probe("orders capped", f.capped);
    State(HashBytes(1, x.trace.data(), x.trace.size()));
    if (!f.structure.empty()) return out;  // C06 and C13 decide the order of events
    if (decide_ && !f.decision.empty()) out.Fail("decision", f.decision);
    if (!decide_ && !f.ledger.empty()) out.Fail("ledger", f.ledger);
    return out;
  }

 private:
  bool decide_;
};
static Register r07(new Ledger(false));
static Register r08(new Ledger(true));

// ================================================================ C06
class C06 : public Check {
 public:
  C06() {
    id = "C06";
    rule = "scripted and built-in strategies trade through markets whose exchange is repeatedly unavailable (0-45% of the ticks "
           "without volume, runs of up to 6, now and then of thousands, also first and last, missing ticks), in one window, in many windows or on parallel "
           "threads under a seeded schedule; the recorded history is compared with a reference executor over the real account; "
           "non-trivial: an order was carried over a tick without volume";
    components = {kReal, kStub};
    state_measure = "distinct recorded histories";
    targets = {TG_ENGINE};
    quick_runs = 36000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    EngGen g;
    g.style = r.PickOf({0, 1, 1, 2});
    const int n = r.Chance(1, 4) ? r.Range(2, 4) : 1;
    g.side = r.Chance(1, 5);
    g.outage = n == 1 ? 150 : 0;
    g.mass = n == 1 ? 300 : 0;
    Made m = GenScenario(r, g, n, 25, &out);
    out.push_back(string("o kind ") + (n > 1 ? "multi" : r.PickOf({"exec", "exec", "eval"})));
    if (n > 1) GenSched(r, &out, false);
  }
  Lines Concretise(const Lines& in) override { return ConcretiseSched(this, in); }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    if (t.empty() || !HasEmitter(in) || !Configure(c)) return out.trivial = true, out;
    ApplySched(in, 0);
    const string kind = o.S("kind", "exec");
    Exec x = RunEngine(in, "o mode " + kind + "\n");
    SaveSched();
    if (Bad(x, &out, "the backtest")) return out;
    Eval e = ParseEval(x.trace);
    uint64_t carried = 0;
    for (size_t k = 0; k < e.sessions.size(); ++k) {
      const Session& s = e.sessions[k];
      Findings f = Follow(c, t.data(), t.size(), s);
      carried += f.carried;
      Probe("orders carried over a tick without volume", f.carried);
      Probe("orders executed", f.executed);
      if (!f.structure.empty()) return out.Fail("structure", f.structure), out;
      // The reference executor, fed with the emitted orders.
      Lines ref;
      for (const string& l : in)
        if (l.compare(0, 2, "k ") == 0 || l.compare(0, 2, "o ") == 0) ref.push_back(l);
      ref.push_back("e ref script");
      int u = -1;
      for (const Ev& v : s.ev) {
        if (v.k == 'U') ++u;
        if (v.k == 'E')
          ref.push_back(Fmt("q 0 %d %c %c %c %s %c %s", u, v.o.type, v.o.side, v.o.base ? 'b' : 'q', Fl(v.o.amt).c_str(), v.o.has_price ? 'a' : '-', Fl(v.o.price).c_str()));
      }
      Reset();
      Exec y = RunEngine(ref, "o mode ref\n");
      if (Bad(y, &out, "the reference executor")) return out;
      vector<string> got, want;
      for (const Ev& v : s.ev)
        if (v.k == 'X' || v.k == 'F') got.push_back(v.raw);
      for (const Ev& v : ParseTrace(y.trace))
        if (v.k == 'X' || v.k == 'F') want.push_back(v.raw);
      for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
        if (i >= got.size() || i >= want.size() || got[i] != want[i])
          return out.Fail("execution", Fmt("event %zu is \"%.120s\", expected \"%.120s\"", i, i < got.size() ? got[i].c_str() : "the end",
                                           i < want.size() ? want[i].c_str() : "the end")), out;
    }
    out.trivial = carried == 0;
    State(HashBytes(1, x.trace.data(), x.trace.size()));
    return out;
  }
};
static Register r06(new C06);

// ================================================================ C09
class C09 : public Check {
 public:
  C09() {
    id = "C09";
    rule = "side feeds that are early, late, sparse, dense, bursty, in step or out of step with the ticks (records exactly on and "
           "one second around ticks) are shown to strategies over random markets with outages, in one window, in month windows, "
           "and on parallel threads sharing the side input under a seeded schedule; every tick shown is compared with an as-of "
           "lookup; non-trivial: the signals changed at least once";
    components = {kReal, kStub};
    state_measure = "distinct sequences of delivered side records";
    targets = {TG_ENGINE};
    quick_runs = 40000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    EngGen g;
    g.style = r.PickOf({0, 1});
    g.side = true;
    g.max_ticks = 300;
    const int n = r.Chance(1, 4) ? r.Range(2, 4) : 1;
    g.mass = n == 1 ? 300 : 0;
    const string kind = n > 1 ? "multi" : r.PickOf({"exec", "eval"});
    out.push_back("o kind " + kind);
    if (kind == "eval" && r.Chance(2, 3)) {
      // Windows: sparse ticks over months.
      GenAccount(r, 1, &out);
      TickCfg c;
      c.start = r.PickOf<int64_t>({1483228800, 1485907200, 1580342400});
      c.period = r.PickOf({86400, 43200, 300000});
      c.n = r.Range(20, 300);
      c.p_zero = 10, c.p_missing = r.PickOf({0, 5, 15});
      vector<Ohlc> t = GenTicks(r, c);
      for (auto& x : t) out.push_back(TickLine(x));
      for (auto& x : GenEngSide(r, t)) out.push_back(SideLine(x));
      out.push_back("e s0 script");
      GenOrders(r, t, 1, Opts(out), 0, &out);
      out.push_back(Fmt("o months %d", r.PickOf({1, 1, 2, 3})));
      out.push_back(Fmt("o start %lld", (long long)(c.start - r.PickOf({0, 86400 * 3, -86400 * 9}))));
      out.push_back(Fmt("o end %lld", (long long)(t.back().ts + r.PickOf({1, 86400 * 40}))));
    } else {
      GenScenario(r, g, n, 0, &out);
    }
    if (n > 1) GenSched(r, &out, false);
    GenMemEnv(r, "A", &out);
  }
  Lines Concretise(const Lines& in) override { return ConcretiseSched(this, in); }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<Side> side = SideLines(in);
    if (t.empty() || side.empty() || !HasEmitter(in) || !Configure(c)) return out.trivial = true, out;
    for (size_t i = 0; i < side.size(); ++i)
      if (side[i].s.size() != side[0].s.size() || side[i].ts < 1 || (i && side[i].ts <= side[i - 1].ts)) return out.trivial = true, out;
    ApplySched(in, 0);
    ApplyEnv(in, "A");
    Exec x = RunEngine(in, "o mode " + o.S("kind", "exec") + "\n");
    SaveSched();
    if (Bad(x, &out, "the backtest")) return out;
    Eval e = ParseEval(x.trace);
    uint64_t h = 7, changes = 0, before = 0;
    for (const Session& s : e.sessions) {
      int prev = -2;
      for (const Ev& v : s.ev) {
        if (v.k != 'U') continue;
        const int k = SideIndex(side, v.t.ts);
        if (k != prev && prev != -2) ++changes;
        if (k < 0) ++before;
        prev = k;
        h = HashBytes(h, &k, sizeof k);
        vector<float> want;
        if (k >= 0) {
          want = side[k].s;
          want.push_back((float)(v.t.ts - side[k].ts));
        }
        bool same = want.size() == v.sig.size();
        for (size_t i = 0; same && i < want.size(); ++i) same = Same(want[i], v.sig[i]);
        if (!same) {
          string g, w;
          for (float f : v.sig) g += " " + Fl(f);
          for (float f : want) w += " " + Fl(f);
          return out.Fail("signals", Fmt("tick %lld: the strategy is shown the signals [%.150s ], expected [%.150s ] (record %d of %zu)", (long long)v.t.ts, g.c_str(), w.c_str(), k, side.size())), out;
        }
      }
    }
    Probe("changes of the side record", changes);
    Probe("ticks before the first side record", before);
    if (e.sessions.size() > 1) Probe("several windows or strategies");
    out.trivial = changes == 0;
    State(h);
    return out;
  }
};
static Register r09(new C09);

// ================================================================ C05
class C05 : public Check {
 public:
  C05() {
    id = "C05";
    rule = "a market and a side feed are cut at a random time (on, between, before and after ticks) and everything later is "
           "removed, thinned, delayed, rescaled, replaced by noise, emptied of volume or extended; the same strategies are run on both "
           "(one window, month windows, parallel threads, or the backtester program with its logs) and everything up to the cut "
           "must be identical; non-trivial: the altered data differs and the common past holds at least one order";
    components = {kReal + string("; trader.cc and logging/ in the program runs"), kStub};
    state_measure = "distinct (common past, alteration)";
    targets = {TG_ENGINE, TG_TRADER};
    quick_runs = 40000;
    thorough_runs = 200000;
  }
  void Generate(Rng& r, Lines& out) override {
    EngGen g;
    g.style = r.PickOf({0, 1});
    g.side = r.Chance(1, 2);
    const string kind = r.PickOf({"exec", "exec", "eval", "multi", "trader"});
    out.push_back("o kind " + kind);
    if (kind == "trader") {
      out.push_back(string("o trader ") + r.PickOf({"rebalancing", "stop"}));
      g.style = 1;
    }
    if (kind == "eval") {
      TickCfg c;
      c.start = r.PickOf<int64_t>({1483228800, 1485907200, 1580342400});
      c.period = r.PickOf({86400, 43200, 300000});
      c.n = r.Range(20, 150);
      c.p_zero = 10, c.p_missing = r.PickOf({0, 5, 15});
      GenAccount(r, 1, &out);
      vector<Ohlc> t = GenTicks(r, c);
      for (auto& x : t) out.push_back(TickLine(x));
      if (g.side)
        for (auto& x : GenEngSide(r, t)) out.push_back(SideLine(x));
      if (r.Chance(1, 2)) {
        out.push_back("e s0 script");
        GenOrders(r, t, 1, Opts(out), 0, &out);
      } else {
        out.push_back(GenBuiltin(r, "s0"));
      }
      out.push_back(Fmt("o months %d", r.PickOf({1, 1, 2})));
      out.push_back(Fmt("o start %lld", (long long)(c.start - r.PickOf({0, 86400 * 3}))));
      out.push_back(Fmt("o end %lld", (long long)(t.back().ts + r.PickOf({1, 86400 * 40}))));
    } else {
      if (kind == "exec") g.mass = 400;
      GenScenario(r, g, kind == "multi" ? r.Range(2, 4) : 1, 40, &out);
    }
    if (kind == "multi") GenSched(r, &out, false);
    out.push_back(Fmt("o cut %d", (int)r.PickOf<int>({(int)r.Below(10000), (int)r.Below(10000), 9999, 0, 5000})));
    out.push_back(Fmt("o between %d", (int)r.PickOf({0, 0, 1, 50, 99})));
    const int n = r.Range(1, 3);
    for (int i = 0; i < n; ++i) out.push_back(Fmt("alt %d %d", (int)r.Below(9), (int)r.Range(1, 1 << 30)));
    for (int i = r.Below(3); i > 0; --i) out.push_back(Fmt("sidealt %d %d", (int)r.Below(6), (int)r.Range(1, 1 << 30)));
  }
  static void Alter(vector<Ohlc>* t, int64_t cut, int kind, Rng& r) {
    vector<Ohlc> past, fut;
    for (auto& x : *t) (x.ts <= cut ? past : fut).push_back(x);
    const int64_t period = t->size() > 1 ? std::max<int64_t>(1, (*t)[1].ts - (*t)[0].ts) : 60;
    const float last = past.empty() ? t->front().c : past.back().c;
    switch (kind) {
      case 0: fut.clear(); break;
      case 1: {
        vector<Ohlc> k;
        for (auto& x : fut) if (r.Chance(1, 2)) k.push_back(x);
        fut = k;
        break;
      }
      case 2: {
        const float f = r.PickOf({0.5f, 2.0f, 1.01f, 10.0f, 0.1f});
        for (auto& x : fut) x.o *= f, x.h *= f, x.l *= f, x.c *= f;
        break;
      }
      case 3:
        for (auto& x : fut) {
          const float f = 0.8f + 0.4f * r.Unit();
          x.h *= 1 + 0.3f * r.Unit(), x.l *= f > 1 ? 1 : f;
          if (r.Chance(1, 3)) x.c = x.h;
        }
        break;
      case 4: for (auto& x : fut) x.v = r.Chance(1, 3) ? 0 : x.v * r.PickOf({0.001f, 1.0f, 1000.0f}); break;
      case 5: {
        const int64_t d = r.PickOf<int64_t>({1, period, 3600, 86400, 40 * 86400});
        for (auto& x : fut) x.ts += d;
        break;
      }
      case 6: {
        vector<Ohlc> k;
        int64_t to = fut.empty() ? cut + 10 : fut[0].ts;
        Ohlc x{cut + 1, last * 0.5f, last * 2, last * 0.4f, last, r.Chance(1, 3) ? 0.0f : 5.0f};
        if (x.ts < to) k.push_back(x);
        k.insert(k.end(), fut.begin(), fut.end());
        fut = k;
        break;
      }
      case 7: {
        TickCfg c;
        c.start = (fut.empty() ? cut + period : fut[0].ts);
        c.period = period, c.n = r.Range(1, 20), c.price0 = last;
        fut = GenTicks(r, c);
        break;
      }
      case 8: if (!fut.empty()) { Ohlc& x = fut[0]; x.h = std::max({x.o, x.c, x.h}) * 3, x.l = std::min({x.o, x.c, x.l}) / 3; x.v *= 100; } break;
    }
    *t = past;
    for (auto& x : fut)
      if (x.ts > cut && (t->empty() || x.ts > t->back().ts)) t->push_back(x);
  }
  static void AlterSide(vector<Side>* s, int64_t cut, int kind, Rng& r) {
    vector<Side> past, fut;
    for (auto& x : *s) (x.ts <= cut ? past : fut).push_back(x);
    const size_t k = s->empty() ? 2 : s->front().s.size();
    switch (kind) {
      case 0: fut.clear(); break;
      case 1: for (auto& x : fut) for (float& f : x.s) f = f * 3 + 1; break;
      case 2: { const int64_t d = r.PickOf<int64_t>({1, 60, 3600, 86400, 40 * 86400}); for (auto& x : fut) x.ts += d; break; }
      case 3: { vector<Side> v; for (auto& x : fut) if (r.Chance(1, 2)) v.push_back(x); fut = v; break; }
      case 4: { Side x; x.ts = cut + 1; x.s.assign(k, 777); fut.insert(fut.begin(), x); break; }
      case 5: for (int i = 0; i < 30; ++i) { Side x; x.ts = (fut.empty() ? cut : fut.back().ts) + r.Range(1, 1000); x.s.assign(k, i); fut.push_back(x); } break;
    }
    *s = past;
    for (auto& x : fut)
      if (x.ts > cut && (s->empty() || x.ts > s->back().ts)) s->push_back(x);
  }
  Lines Concretise(const Lines& in) override { return ConcretiseSched(this, in); }
  // What is known up to the cut: one list per window.
  static vector<vector<string>> Past(const Eval& e, int64_t cut, Outcome* out) {
    vector<vector<string>> v;
    for (const Session& s : e.sessions) {
      vector<string> k;
      vector<OrderT> pending, fresh;
      for (const Ev& x : s.ev) {
        if (x.k == 'X') {
          if (x.t.ts > cut) break;
          pending.insert(pending.end(), fresh.begin(), fresh.end());
          fresh.clear();
        }
        if (x.k == 'F') {
          bool found = false;
          for (auto& o : pending) found |= Same(o, x.o);
          if (!found && out) out->Fail("early-execution", Fmt("tick %lld: %s is executed before the tick after its emission", (long long)x.t.ts, Text(x.o).c_str()));
        }
        if (x.k == 'U') pending.clear();
        if (x.k == 'E') fresh.push_back(x.o);
        k.push_back(x.raw);
      }
      if (!k.empty()) v.push_back(k);
    }
    return v;
  }
  static vector<string> Rows(const char* path, int64_t cut) {
    string f;
    vector<string> v;
    DiskGet(path, &f);
    for (auto& l : SplitLines(f))
      if (atoll(l.c_str()) <= cut) v.push_back(l);
    return v;
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<Side> side = SideLines(in);
    const string kind = o.S("kind", "exec");
    if (t.empty() || !HasEmitter(in) || !Configure(c)) return out.trivial = true, out;
    const size_t ci = std::min<size_t>(t.size() - 1, o.I("cut") * t.size() / 10000);
    int64_t cut = t[ci].ts;
    if (ci + 1 < t.size()) cut += (t[ci + 1].ts - t[ci].ts) * o.I("between") / 100;
    vector<Ohlc> t2 = t;
    vector<Side> s2 = side;
    for (const string& s : in) {
      vector<string> w = Words(s);
      if (w.size() != 3) continue;
      Rng r(strtoull(w[2].c_str(), nullptr, 10));
      if (w[0] == "alt") Alter(&t2, cut, atoi(w[1].c_str()), r);
      if (w[0] == "sidealt") AlterSide(&s2, cut, atoi(w[1].c_str()), r);
    }
    bool differs = t.size() != t2.size() || side.size() != s2.size();
    for (size_t i = 0; !differs && i < t.size(); ++i) differs = !Same(t[i], t2[i]);
    for (size_t i = 0; !differs && i < side.size(); ++i) differs = !Same(side[i], s2[i]);
    Lines alt;
    for (const string& s : in)
      if (s.compare(0, 2, "k ") != 0 && s.compare(0, 2, "i ") != 0) alt.push_back(s);
    for (auto& x : t2) alt.push_back(TickLine(x));
    for (auto& x : s2) alt.push_back(SideLine(x));
    size_t orders = 0;
    if (kind == "trader") {
      vector<string> a[2], b[2];
      for (int k = 0; k < 2; ++k) {
        DiskReset();
        Reset();
        StoreHistory(k ? t2 : t, k ? s2 : side);
        SetArgs(TraderArgs(!(k ? s2 : side).empty(), {"--trader=" + o.S("trader", "stop"), "--start_time=1970-01-01", "--end_time=2200-01-01",
                "--output_exchange_log_file=/sim/x.csv", "--output_trader_log_file=/sim/y.csv"}));
        Exec x = Do(TG_TRADER);
        if (x.status != 0) return out.Fail("abort", Fmt("the backtester ends with status %d: %.200s", x.status, x.err.c_str())), out;
        a[k] = Rows("/sim/x.csv", cut);
        b[k] = Rows("/sim/y.csv", cut);
      }
      for (int q = 0; q < 2; ++q) {
        const vector<string>&x = q ? b[0] : a[0], &y = q ? b[1] : a[1];
        for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
          if (i >= x.size() || i >= y.size() || x[i] != y[i])
            return out.Fail("look-ahead", Fmt("up to %lld the %s log depends on later data: row %zu is \"%.100s\" or \"%.100s\"", (long long)cut, q ? "trader" : "exchange", i,
                                              i < x.size() ? x[i].c_str() : "missing", i < y.size() ? y[i].c_str() : "missing")), out;
      }
      orders = b[0].size();
    } else {
      Eval e[2];
      for (int k = 0; k < 2; ++k) {
        Reset();
        if (k == 0) ApplySched(in, 0);
        Exec x = RunEngine(k ? alt : in, "o mode " + kind + "\n");
        if (k == 0) SaveSched();
        if (Bad(x, &out, "the backtest")) return out;
        e[k] = ParseEval(x.trace);
      }
      vector<vector<string>> a, b;
      if (kind == "multi") {
        // One session per strategy, in order.
      }
      a = Past(e[0], cut, &out), b = Past(e[1], cut, nullptr);
      // Windows that only hold later data differ freely; with parallel strategies all start at once.
      if (out.bad) return out;
      for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
        if (i >= a.size() || i >= b.size()) return out.Fail("look-ahead", Fmt("%zu or %zu windows hold data up to %lld", a.size(), b.size(), (long long)cut)), out;
        for (size_t k = 0; k < std::max(a[i].size(), b[i].size()); ++k)
          if (k >= a[i].size() || k >= b[i].size() || a[i][k] != b[i][k])
            return out.Fail("look-ahead", Fmt("up to %lld the backtest depends on later data: event %zu is \"%.130s\" or \"%.130s\"", (long long)cut, k,
                                              k < a[i].size() ? a[i][k].c_str() : "missing", k < b[i].size() ? b[i][k].c_str() : "missing")), out;
        for (auto& l : a[i]) orders += l[0] == 'E';
        if (!a[i].empty()) State(HashBytes(1, a[i].back().data(), a[i].back().size()));
      }
      // Orders of the last tick are never executed, whatever the end.
      for (int k = 0; k < 2; ++k)
        Past(e[k], INT64_MAX, &out);
      if (out.bad) return out;
    }
    Probe("past with orders", orders > 0);
    out.trivial = !differs || orders == 0;
    return out;
  }
};
static Register r05(new C05);

// ================================================================ C04
class C04 : public Check {
 public:
  C04() {
    id = "C04";
    rule = "batches of 1-8 (now and then up to 200) scripted and built-in strategies (or the program's own batches of 20 and 144) are evaluated in parallel "
           "under a seeded schedule: preemption at random accesses, at few random points (PCT), at the accesses found to conflict in a "
           "profiling run, or none; thread creations fail, the CPU count varies; every result is compared with the strategy "
           "evaluated alone in a fresh process; non-trivial: at least two threads ran";
    components = {kReal + string("; trader.cc in the program runs; libstdc++ async"), kStub};
    state_measure = "distinct schedules";
    targets = {TG_ENGINE, TG_TRADER};
    quick_runs = 10000;
    thorough_runs = 80000;
  }
  void Generate(Rng& r, Lines& out) override {
    const int kind = r.Below(10);
    const bool program = kind == 0, fac = kind == 1;
    EngGen g;
    g.style = r.PickOf({0, 1});
    g.side = r.Chance(2, 3);
    g.max_ticks = program || fac ? 20 : r.PickOf({30, 120});
    if (program || fac) {
      g.style = 1;
      out.push_back(program ? "o kind trader" : "o kind facbatch");
      out.push_back(string("o factory ") + r.PickOf({"rebalancing", "rebalancing", "rebalancing", "stop"}));
      vector<Ohlc> t = GenEngTicks(r, g);
      for (auto& x : t) out.push_back(TickLine(x));
      if (g.side) for (auto& x : GenEngSide(r, t)) out.push_back(SideLine(x));
    } else {
      out.push_back("o kind batch");
      const bool large = r.Chance(1, 150);
      if (large) g.max_ticks = 6;
      GenScenario(r, g, large ? r.PickOf({33, 65, 130, 200}) : r.PickOf({1, 2, 2, 3, 3, 4, 6, 8}), 40, &out);
      if (r.Chance(1, 4)) out.push_back("o rounds 2");
      out.push_back(Fmt("o fast %d", (int)r.Below(2)));
    }
    vector<Ohlc> t = TickLines(out);
    if (r.Chance(1, 4) && !program) out.push_back("o months 1");
    if (program || r.Chance(1, 3) || out.back() == "o months 1") {
      int64_t first = t.empty() ? 1500000000 : t[0].ts, last = t.empty() ? first : t.back().ts;
      const int64_t start = std::max<int64_t>(1, first - r.PickOf({0, 0, 1000, 86400 * 20}));
      const int months = program && r.Chance(1, 2) ? r.PickOf({1, 2, 3}) : out.back() == "o months 1" ? 1 : 0;
      if (program && months) out.push_back(Fmt("o months %d", months));
      const int64_t limit = ModelAddMonths(start, months + 3) + 1;
      const int64_t end = std::min(limit, std::max(last + r.PickOf({0, 1, 5000}), ModelAddMonths(start, months + (int)r.Below(3)) + r.PickOf({0, 0, 1})));
      out.push_back(Fmt("o start %lld", (long long)start));
      out.push_back(Fmt("o end %lld", (long long)end));
    }
    GenSched(r, &out, true);
    if (r.Chance(1, 3)) out.push_back(Fmt("env A cpus %d", r.PickOf({1, 2, 3, 16, 64})));
    GenMemEnv(r, "A", &out);
  }
  Lines Concretise(const Lines& in) override { return ConcretiseSched(this, in); }
  static vector<string> Blocks(const string& trace) {
    vector<string> v;
    for (auto& l : SplitLines(trace)) {
      if (l == "END") break;
      if (l.compare(0, 2, "B ") == 0) v.emplace_back();
      if (!v.empty()) v.back() += l + "\n";
    }
    return v;
  }
  static string FirstDiff(const string& a, const string& b) {
    vector<string> x = SplitLines(a), y = SplitLines(b);
    for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
      if (i >= x.size() || i >= y.size() || x[i] != y[i])
        return Fmt("\"%.130s\" alone, \"%.130s\" in the batch", i < x.size() ? x[i].c_str() : "nothing", i < y.size() ? y[i].c_str() : "nothing");
    return "";
  }
  Outcome Run(const Lines& in0) override {
    Outcome out;
    Lines in;  // the program trades with its own account configuration
    Opts o(in0);
    const string kind = o.S("kind", "batch");
    for (const string& s : in0)
      if (kind == "batch" || s.compare(0, 2, "o ") != 0 || s.find("unit") == string::npos) in.push_back(s);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<Side> side = SideLines(in);
    size_t n = 0;
    for (auto& s : in) n += s.compare(0, 2, "e ") == 0;
    if (t.empty() || (kind == "batch" && !n) || !Configure(c)) return out.trivial = true, out;
    for (size_t i = 0; i < side.size(); ++i)
      if (side[i].s.size() != side[0].s.size() || side[i].ts < 1 || (i && side[i].ts <= side[i - 1].ts)) return out.trivial = true, out;
    if (o.I("months") > 0 && o.I("start") == 0) return out.trivial = true, out;
    vector<string> alone;
    if (kind == "batch") {
      for (size_t i = 0; i < n; ++i) {
        Reset();
        Exec x = RunEngine(in, Fmt("o mode alone\no only %zu\n", i));
        if (Bad(x, &out, "a strategy alone")) return out;
        vector<string> b = Blocks(x.trace);
        if (b.size() != 1) return out.Fail("abort", "no result"), out;
        alone.push_back(b[0]);
      }
    } else {
      Lines l = in;
      if (kind == "trader") {
        // The program selects the period itself.
        l.clear();
        for (auto& s : in) if (s.compare(0, 2, "k ") != 0 && s.compare(0, 2, "i ") != 0) l.push_back(s);
        for (auto& x : InPeriod(t, o.I("start"), o.I("end"))) l.push_back(TickLine(x));
        for (auto& x : InPeriod(side, o.I("start"), o.I("end"))) l.push_back(SideLine(x));
      }
      Exec x = RunEngine(l, "o mode facbatch\no alone 1\no fast 1\n");
      if (Bad(x, &out, "the batch one by one")) return out;
      alone = Blocks(x.trace);
    }
    auto concurrent = [&]() {
      ApplyEnv(in, "A");
      if (kind == "trader") {
        DiskReset();
        StoreHistory(t, side);
        vector<string> more = {"--trader=" + o.S("factory", "stop"), "--evaluate_batch", "--start_time=" + TimeText(o.I("start")), "--end_time=" + TimeText(o.I("end"))};
        if (o.I("months")) more.push_back(Fmt("--evaluation_period_months=%d", (int)o.I("months")));
        SetArgs(TraderArgs(!side.empty(), more));
        return Do(TG_TRADER);
      }
      return RunEngine(in, "o mode " + kind + (kind == "batch" ? "\n" : "\no fast 1\n"));
    };
    uint64_t acc = 0;
    const string sm = SchedMode(in);
    if (sm == "conflict") {
      Reset();
      g_sh->cfg.profile_conflicts = 1;
      g_sh->cfg.sched_mode = SM_RANDOM;
      g_sh->cfg.sched_rate = 3000;
      g_sh->cfg.sched_seed = 1;
      Exec p = concurrent();
      if (p.Hung()) return out.Fail("hang", "the profiling run does not end"), out;
      Probe("conflicting addresses found", g_sh->res.nconflict);
    } else if (sm == "pct") {
      Reset();
      concurrent();
      acc = g_sh->res.access_count;
    }
    const bool keep = sm == "conflict";
    const int nconf = g_sh->res.nconflict;
    Reset();
    if (keep) g_sh->res.nconflict = nconf;
    ApplySched(in, acc);
    Exec x = concurrent();
    SaveSched();
    const uint64_t threads = g_sh->res.threads_created, failed = g_sh->res.stat[ST_THREAD_EAGAIN];
    State(g_sh->res.sched_hash);
    out.trivial = threads < 2;
    if (failed) Probe("thread creation failed", failed);
    if (kind == "trader") {
      if (x.status != 0) return out.Fail(x.Hung() ? "hang" : "abort", Fmt("the batch evaluation ends with status %d: %.200s", x.status, x.err.c_str())), out;
      return Report(x.out, alone, out);
    }
    if (Bad(x, &out, "the batch")) return out;
    vector<string> got = Blocks(x.trace);
    const size_t rounds = kind == "batch" ? std::max<int64_t>(1, o.I("rounds", 1)) : 1;
    if (got.size() != alone.size() * rounds) return out.Fail("results", Fmt("%zu results for %zu strategies", got.size(), alone.size())), out;
    for (size_t i = 0; i < got.size(); ++i)
      if (got[i] != alone[i % alone.size()])
        return out.Fail("results", Fmt("strategy %zu: %s", i % alone.size(), FirstDiff(alone[i % alone.size()], got[i]).c_str())), out;
    return out;
  }
  // The printed list against the scores of the strategies alone.
  static Outcome Report(const string& text, const vector<string>& alone, Outcome& out) {
    std::map<string, double> score;
    vector<double> all;
    for (auto& b : alone)
      for (auto& l : SplitLines(b)) {
        vector<string> w = Words(l);
        if (w.empty() || w[0] != "R") continue;
        const double s = strtod(w[2].c_str(), nullptr);
        score[w[1]] = s;
        all.push_back(s);
      }
    std::sort(all.rbegin(), all.rend());
    vector<std::pair<string, double>> got;
    bool on = false;
    for (auto& l : SplitLines(text)) {
      if (l.find("Batch evaluation") != string::npos) { on = true; continue; }
      size_t p = l.rfind(": ");
      if (!on || p == string::npos || !score.count(l.substr(0, p))) continue;
      got.emplace_back(l.substr(0, p), strtod(l.c_str() + p + 2, nullptr));
    }
    const size_t want = std::min<size_t>(20, all.size());
    if (got.size() != want) return out.Fail("report", Fmt("the report lists %zu strategies, expected %zu", got.size(), want)), out;
    std::set<string> seen;
    for (size_t i = 0; i < got.size(); ++i) {
      const double tol = 1.01e-5 + fabs(all[i]) * 1e-6;
      if (!seen.insert(got[i].first).second) return out.Fail("report", "the report lists " + got[i].first + " twice"), out;
      if (fabs(score[got[i].first] - got[i].second) > tol)
        return out.Fail("report", Fmt("the report gives %s the score %.5f, alone it has %.5f", got[i].first.c_str(), got[i].second, score[got[i].first])), out;
      if (fabs(all[i] - got[i].second) > tol)
        return out.Fail("report", Fmt("place %zu of the report has the score %.5f, the place %zu of all strategies has %.5f", i + 1, got[i].second, i + 1, all[i])), out;
    }
    return out;
  }
};
static Register r04(new C04);

// ================================================================ C12
class C12 : public Check {
 public:
  C12() {
    id = "C12";
    rule = "evaluations over histories of up to several years with outages spanning whole windows, starts on month ends and leap days, "
           "periods of 0-24 months, ends on and around window ends, empty and single-tick histories, with and without side input; "
           "every window is compared with a calendar model and with a separate execution of its ticks in a fresh process, every "
           "reported figure is recomputed from the recorded executions; some runs go through the backtester program; "
           "non-trivial: at least one window with ticks";
    components = {kReal + string("; trader.cc in the program runs"), kStub};
    state_measure = "distinct lists of windows with their results";
    targets = {TG_ENGINE, TG_TRADER};
    quick_runs = 27000;
    thorough_runs = 100000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool program = r.Chance(1, 5);
    const int style = r.Chance(1, 6) ? 0 : 1;
    if (!program) GenAccount(r, style, &out);
    TickCfg c;
    c.start = r.PickOf<int64_t>({1483228800, 1485820800 /*Jan 31 2017*/, 1580428800 /*Jan 31 2020*/, 1582934400 /*Feb 29 2020*/,
                                 1609372800 /*Dec 31 2020*/, 1512000000 /*Nov 30 2017*/, 2140000000, 951782400 /*Feb 29 2000*/});
    c.start += r.PickOf({0, 0, 0, 1, -1, 43200, 86399});
    c.period = r.PickOf({300, 3600, 21600, 86400, 86400, 302400});
    c.n = r.Chance(1, 20) ? r.Range(0, 2) : r.Range(2, r.PickOf({30, 200}));
    c.p_zero = r.PickOf({0, 5, 30}), c.p_missing = r.PickOf({0, 2, 10});
    c.vol = r.PickOf({0.0, 0.002, 0.02}), c.p_jump = r.PickOf({0, 4, 15}), c.p_wild = r.PickOf({0, 1, 10});
    c.dyadic = style == 0;
    c.price0 = style == 0 ? 128 : r.PickOf({1.0f, 100.0f, 3000.0f});
    vector<Ohlc> t = c.n ? GenTicks(r, c) : vector<Ohlc>();
    if (style && t.size() > 1 && r.Chance(1, 4)) {  // a market that grows or shrinks over all windows
      const double total = r.PickOf({1e-6, 1e-3, 1e-2, 30.0, 1e4, 1e6});
      const double span = t.back().ts - t[0].ts;
      for (auto& x : t) {
        const float m = pow(total, (x.ts - t[0].ts) / span);
        x.o *= m, x.h *= m, x.l *= m, x.c *= m;
      }
    }
    // Dozens of windows, in each of which an account that stays flat is left far behind (or far ahead of) the market.
    const bool steep = !program && style && r.Chance(1, 20);
    if (steep) {
      c.period = 302400, c.n = r.Range(380, 560), c.p_wild = c.p_jump = 0, c.vol = 0.02;
      t = GenTicks(r, c);
      const double total = r.PickOf({1e-10, 1e-14, 1e10, 1e14}), span = t.back().ts - t[0].ts;
      for (auto& x : t) {
        const float m = pow(total, (x.ts - t[0].ts) / span);
        x.o *= m, x.h *= m, x.l *= m, x.c *= m;
      }
    }
    // A hundred windows and more, in each of which the market multiplies (or all but vanishes): the product of the ratios
    // is far outside of what a double can hold.
    const bool sheer = !program && style && !steep && r.Chance(1, 30);
    if (sheer) {
      t.clear();
      const int n = r.Range(90, 128);
      const float from = r.PickOf({1e-3f, 1.0f, 100.0f}), to = from * r.PickOf({1e3f, 1e4f, 2e5f});
      const bool up = r.Chance(1, 2);
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < 2; ++k) {
          Ohlc x;
          x.ts = ModelAddMonths(c.start, i) + (k ? 86400 * r.Range(1, 20) : 0);
          x.c = x.o = (k == 1) == up ? to : from;
          x.h = x.o * 1.01f, x.l = x.o * 0.99f, x.v = r.Range(1, 50);
          if (t.empty() || x.ts > t.back().ts) t.push_back(x);
        }
    }
    const bool ages = !steep && !sheer && t.size() > 1 && r.Chance(1, 10);
    if (ages) {  // an outage of many years
      const int64_t gap = 86400LL * 31 * r.PickOf({13, 25, 61, 100});
      for (size_t i = 1 + r.Below(t.size() - 1); i < t.size(); ++i) t[i].ts += gap;
    }
    for (auto& x : t) out.push_back(TickLine(x));
    if (!t.empty() && r.Chance(1, 3))
      for (auto& x : GenEngSide(r, t)) out.push_back(SideLine(x));
    const int months = sheer ? 1 : steep ? r.PickOf({3, 6, 12}) : r.PickOf({0, 1, 1, 1, 2, 3, 6, 12, 24});
    int64_t start = c.start + r.PickOf<int64_t>({0, 0, 0, -1, 1, -86400 * 3, 86400 * 5, -86400 * 70});
    int64_t end = (t.empty() ? start : t.back().ts) + r.PickOf<int64_t>({0, 1, 86400 * 40, 86400 * 400});
    if (r.Chance(1, 2)) end = ModelAddMonths(start, r.Range(0, 30)) + r.PickOf({0, 0, 1, -1});  // on and around a window end
    if (r.Chance(1, 15)) end = start + r.PickOf({0, -5});
    if (steep) start = c.start, end = t.back().ts + 1;
    if (sheer) start = c.start, end = t.back().ts + 86400 * 40;
    const int64_t longest = (ages || steep || sheer ? 132LL : 40LL) * 31 * 86400;
    if (end - start > longest) end = start + longest;
    if (!program && months == 0 && r.Chance(1, 3)) start = r.PickOf({0, 0, -1, -86400}), end = r.Chance(1, 2) ? r.PickOf<int64_t>({0, 0, -1, -86400}) : end;
    out.push_back(Fmt("o start %lld", (long long)start));
    out.push_back(Fmt("o end %lld", (long long)end));
    out.push_back(Fmt("o months %d", months));
    if (r.Chance(1, 2)) GenSoftEnv(r, "A", &out);
    if (program) {
      out.push_back("o kind trader");
      out.push_back(string("o factory ") + r.PickOf({"rebalancing", "stop"}));
    } else {
      out.push_back(Fmt("o fast %d", (int)r.Chance(1, 4)));
      if (steep || sheer) {
        out.push_back("o start_base 0"), out.push_back("o start_quote 1000");
        if (r.Chance(1, 2)) out.push_back(GenBuiltin(r, "s0"));
        else out.push_back("e s0 script");
      } else if (r.Chance(1, 3)) {
        out.push_back(GenBuiltin(r, "s0"));
      } else {
        out.push_back("e s0 script");
        GenOrders(r, t, style, Opts(out), 0, &out);
      }
    }
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool program = o.S("kind") == "trader";
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<Side> side = SideLines(in);
    if ((!program && !HasEmitter(in)) || !Configure(c)) return out.trivial = true, out;
    for (size_t i = 0; i < side.size(); ++i)
      if (side[i].s.size() != side[0].s.size() || side[i].ts < 1 || (i && side[i].ts <= side[i - 1].ts)) return out.trivial = true, out;
    const int64_t start = o.I("start"), end = o.I("end");
    const int months = o.I("months");
    if (months > 0 && start <= 0) return out.trivial = true, out;
    vector<Ohlc> t1 = program ? InPeriod(t, start, end) : t;
    vector<Side> s1 = program ? InPeriod(side, start, end) : side;
    vector<Window> win = ModelWindows(t1, start, end, months);
    Lines l;
    for (const string& s : in)
      if (!program || (s.compare(0, 2, "k ") != 0 && s.compare(0, 2, "i ") != 0)) l.push_back(s);
    if (program) {
      for (auto& x : t1) l.push_back(TickLine(x));
      for (auto& x : s1) l.push_back(SideLine(x));
      l.push_back("e " + o.S("factory", "stop") + " fac");
    }
    ApplyEnv(in, "A");
    Exec x = RunEngine(l, "o mode eval\n");
    if (Bad(x, &out, "the evaluation")) return out;
    Eval e = ParseEval(x.trace);
    string d = CheckResults(c, t1, win, e, o.I("fast") != 0);
    if (!d.empty()) return out.Fail("results", d), out;
    out.trivial = win.empty();
    Probe("windows", win.size());
    if (win.size() > 1) Probe("several windows");
    if (!win.empty() && months > 0) {
      int64_t all = 0;
      for (int64_t k = 0; ModelAddMonths(ModelAddMonths(start, k), months) <= end; ++k) ++all;
      Probe("skipped windows without ticks", all - win.size());
    }
    for (auto& p : e.periods) State(HashBytes(1, p.raw.data(), p.raw.size()));
    // Every window (or some of many) by itself, in a fresh process.
    const size_t step = std::max<size_t>(1, win.size() / 4);
    for (size_t i = 0; i < win.size(); i = i + 1 == win.size() ? win.size() : std::min(i + step, win.size() - 1)) {
      Reset();
      Exec y = RunEngine(l, Fmt("o mode exec\no lo %zu\no hi %zu\n", win[i].lo, win[i].hi));
      if (Bad(y, &out, "a single window")) return out;
      Eval f = ParseEval(y.trace);
      if (f.sessions.size() != 1) return out.Fail("abort", "no history of the single window"), out;
      const vector<Ev>&a = e.sessions[i].ev, &b = f.sessions[0].ev;
      for (size_t k = 0; k < std::max(a.size(), b.size()); ++k)
        if (k >= a.size() || k >= b.size() || a[k].raw != b[k].raw)
          return out.Fail("window", Fmt("window %zu [%lld, %lld): event %zu is \"%.130s\", a separate evaluation gives \"%.130s\"", i, (long long)win[i].start,
                                        (long long)win[i].end, k, k < a.size() ? a[k].raw.c_str() : "missing", k < b.size() ? b[k].raw.c_str() : "missing")), out;
      for (int k = 0; k < 12; ++k)
        if (f.sessions[0].y.w.size() != 13 || f.sessions[0].y.w[1 + k] != e.periods[i].w[3 + k])
          return out.Fail("window", Fmt("window %zu: the result differs from a separate evaluation: %.200s, %.200s", i, e.periods[i].raw.c_str(), f.sessions[0].y.raw.c_str())), out;
    }
    if (program) {
      DiskReset();
      Reset();
      StoreHistory(t, side);
      ApplyEnv(in, "A");
      vector<string> more = {"--trader=" + o.S("factory", "stop"), "--start_time=" + TimeText(start), "--end_time=" + TimeText(end)};
      if (months) more.push_back(Fmt("--evaluation_period_months=%d", months));
      SetArgs(TraderArgs(!side.empty(), more));
      Exec y = Do(TG_TRADER);
      if (y.status != 0) return out.Fail(y.Hung() ? "hang" : "abort", Fmt("the backtester ends with status %d: %.200s", y.status, y.err.c_str())), out;
      vector<string> rows;
      for (auto& s : SplitLines(y.out))
        if (s.size() > 20 && s[0] == '[' && s.find("): ") != string::npos) rows.push_back(s);
      if (rows.size() != win.size()) return out.Fail("report", Fmt("the report has %zu windows, expected %zu", rows.size(), win.size())), out;
      for (size_t i = 0; i < rows.size(); ++i) {
        const vector<string>& p = e.periods[i].w;
        auto num = [&](int k) { return p[k] == "nan" ? NAN : strtod(p[k].c_str(), nullptr); };
        const string head = "[" + TimeText(win[i].start) + " - " + TimeText(win[i].end) + "): ";
        const double want[5] = {(num(15) - 1) * 100, (num(16) - 1) * 100, num(15) / num(16), num(14), num(13)};
        vector<string> w = Words(rows[i].substr(std::min(rows[i].size(), head.size())));
        bool ok = rows[i].compare(0, head.size(), head) == 0 && w.size() == 5;
        for (int k = 0; ok && k < 5; ++k) ok = fabs(strtod(w[k].c_str(), nullptr) - want[k]) <= (k < 2 ? 0.0061 : 0.00061) + fabs(want[k]) * 1e-5;
        if (!ok) return out.Fail("report", Fmt("the report says \"%.150s\" for window %s%.2f %.2f %.3f %.3f %.3f", rows[i].c_str(), head.c_str(), want[0], want[1], want[2], want[3], want[4])), out;
      }
    }
    return out;
  }
};
static Register r12(new C12);

// ================================================================ C16, C17
class Strategy : public Check {
 public:
  explicit Strategy(bool stop) : stop_(stop) {
    id = stop ? "C17" : "C16";
    rule = string("the ") + (stop ? "stop" : "rebalancing") + " strategy with random parameters trades through random markets with outages on the "
           "simulated exchange, or is fed ticks and balances directly" + (stop ? " (trends against and with the stop, gaps around one hour, side switches)" :
           " (shares on and around the tolerated band, tiny and one-sided holdings)") + "; every call is judged by a model of the documented "
           "rule that follows the recorded state; non-trivial: " + (stop ? "the stop price moved at least once" : "both kinds of orders were emitted");
    components = {kReal, kStub};
    state_measure = "distinct recorded histories";
    targets = {TG_ENGINE};
    quick_runs = 80000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    string e;
    float alpha = 0, eps = 0;
    if (stop_) {
      auto p = [&] { return Fl(r.PickOf({0.01f, 0.05f, 0.1f, 0.15f, 0.2f, 0.5f, 0.001f, (float)(0.3 * r.Unit() + 0.001)})); };
      e = "e s stop " + p() + " " + p() + " " + p() + " " + p();
    } else {
      alpha = r.PickOf({0.1f, 0.3f, 0.5f, 0.7f, 0.9f, 0.95f, 0.02f, 0.99f, (float)(0.05 + 0.9 * r.Unit())});
      eps = r.PickOf({0.01f, 0.05f, 0.1f, 0.2f, 0.5f, 0.001f, (float)(0.3 * r.Unit() + 0.001)});
      e = "e s reb " + Fl(alpha) + " " + Fl(eps);
    }
    TickCfg c;
    c.start = r.PickOf<int64_t>({1500000000, 1483228800, 2147483000LL, 4294967000LL, 7200, 1});
    c.period = r.PickOf({1, 60, 300, 300, 900, 1200, 3599, 3600, 3601, 86400});
    c.n = r.Chance(1, 8) ? r.Range(100, 400) : r.Range(1, 40);
    c.p_zero = r.PickOf({0, 5, 30}), c.p_missing = r.PickOf({0, 2, 10});
    c.vol = r.PickOf({0.0005, 0.005, 0.03, 0.08});
    c.p_jump = r.PickOf({0, 3, 10});
    c.p_wild = r.PickOf({0, 2, 20});
    c.price0 = r.PickOf({0.01f, 1.0f, 100.0f, 3000.0f});
    if (r.Chance(1, 300)) c.n = r.Range(1500, 9000), c.vol = r.PickOf({0.0002, 0.001}), c.p_jump = c.p_wild = 0;
    vector<Ohlc> t = GenTicks(r, c);
    const bool feed = r.Chance(1, 2);
    if (stop_ && r.Chance(1, 3)) {
      // A trend.
      const double f = r.PickOf({1.01, 0.99, 1.1, 0.9, 1.001, 0.999});
      double m = 1;
      for (auto& x : t) {
        x.o *= m, x.h *= m, x.l *= m, x.c *= m;
        m *= f;
        if (m > 1e4 || m < 1e-4) m = 1;
      }
    }
    if (r.Chance(1, 4))  // times on and around one hour apart
      for (size_t i = 1; i < t.size(); ++i) t[i].ts = t[i - 1].ts + r.PickOf({1, 60, 300, 3599, 3600, 3601, 7200, 86400, 90000});
    if (!feed) {
      out.push_back("o kind exec");
      GenAccount(r, r.PickOf({0, 1, 1, 1}), &out);
      for (auto& x : t) out.push_back(TickLine(x));
    } else {
      out.push_back("o kind feed");
      const bool small = r.Chance(1, 4);
      float base = 10 * r.Unit(), quote = base * t[0].c * r.Unit() * 2;
      if (r.Chance(1, 6)) base *= r.PickOf({1e-6f, 1e-5f, 1e-4f, 1e5f}), quote = base * t[0].c * r.Unit() * 2;
      const int style = r.Below(4);
      for (auto& x : t) {
        if (x.v == 0) x.v = 1;
        switch (style) {
          case 0: if (r.Chance(1, 4)) base = 10 * r.Unit(), quote = base * x.c * r.Unit() * 2; break;
          case 1: if (r.Chance(1, 8)) { std::swap(base, quote); base /= x.c; quote *= x.c; } break;
          case 2: {  // around the band, or around equal worth
            const double a = stop_ ? 0.5 : alpha * r.PickOf({1.0, 1.0 + eps, 1.0 - eps});
            if (a <= 0 || a >= 1) break;
            const double v = (small ? r.PickOf({3e-6, 1e-5, 1e-4, 2e-3}) : 1000) * x.c;
            base = a * v / x.c * r.PickOf({1.0, 1 + 1e-5, 1 - 1e-5, 1 + 1e-3, 1 - 1e-3, 1.0});
            quote = (1 - a) * v;
            break;
          }
          case 3: {
            const float tiny[] = {0, 0, 1e-7f, 1e-6f, 2e-6f, 1e-3f};
            base = r.PickOf({base, base, tiny[r.Below(6)]});
            quote = r.PickOf({quote, quote, tiny[r.Below(6)], 5.0f});
            if (base <= 0 && quote <= 0) quote = 1;
            break;
          }
        }
        if (!(base > 0) && !(quote > 0)) base = 1;
        out.push_back(TickLine(x) + " " + Fl(base) + " " + Fl(quote));
      }
    }
    out.push_back(e);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    AccCfg c = AccCfg::From(o);
    vector<Ohlc> t = TickLines(in);
    vector<float> p;
    for (const string& s : in)
      if (s.compare(0, 2, "e ") == 0) {
        vector<string> w = Words(s);
        for (size_t i = 3; i < w.size(); ++i) p.push_back(strtof(w[i].c_str(), nullptr));
      }
    const string kind = o.S("kind", "exec");
    if (t.empty() || p.size() != (stop_ ? 4 : 2) || !Configure(c)) return out.trivial = true, out;
    size_t klines = 0;
    for (const string& s : in) klines += s.compare(0, 2, "k ") == 0;
    if (klines != t.size()) return out.trivial = true, out;
    if (kind == "feed")
      for (const string& s : in)
        if (s.compare(0, 2, "k ") == 0 && Words(s).size() != 9) return out.trivial = true, out;
    Exec x = RunEngine(in, "o mode " + kind + "\n");
    if (Bad(x, &out, "the run")) return out;
    Eval e = ParseEval(x.trace);
    if (e.sessions.size() != 1) return out.Fail("abort", "no history was recorded"), out;
    State(HashBytes(1, x.trace.data(), x.trace.size()));
    const vector<Ev>& ev = e.sessions[0].ev;
    bool first = true;
    int64_t last_ts = 0;
    char mode = 0;
    float stop = 0;
    int market = 0, limits = 0, moved = 0;
    size_t updates = 0, expect = 0;
    for (auto& k : t) expect += kind == "feed" || k.v != 0;
    for (size_t i = 0; i < ev.size(); ++i) {
      if (ev[i].k != 'U') continue;
      ++updates;
      const Ev& u = ev[i];
      vector<OrderT> got;
      for (size_t k = i + 1; k < ev.size() && ev[k].k == 'E'; ++k) got.push_back(ev[k].o);
      string d = stop_ ? Stop(p, u, got, first, &last_ts, &mode, &stop, &moved) : Rebalance(p, u, got, &market, &limits);
      first = false;
      if (!d.empty()) return out.Fail("rule", Fmt("tick %lld close %s base %s quote %s: %s", (long long)u.t.ts, Fl(u.t.c).c_str(), Fl(u.base).c_str(), Fl(u.quote).c_str(), d.c_str())), out;
    }
    if (updates != expect) return out.Fail("rule", Fmt("the strategy was called %zu times on %zu ticks", updates, expect)), out;
    out.trivial = stop_ ? moved == 0 : !market || !limits;
    if (stop_) {
      Probe("stop price moves", moved);
      Probe("calls", updates);
    } else {
      Probe("market orders", market);
      Probe("limit orders", limits);
    }
    return out;
  }
  static string List(const vector<OrderT>& v) {
    string s;
    for (auto& o : v) s += (s.empty() ? "" : "; ") + Text(o);
    return s.empty() ? "no order" : s;
  }
  static string Rebalance(const vector<float>& p, const Ev& u, const vector<OrderT>& got, int* market, int* limits) {
    const double price = u.t.c, b = u.base, q = u.quote;
    const Iv alpha(p[0]), eps(p[1]);
    const Iv up = Mul(alpha, Add(Iv(1), eps)), down = Mul(alpha, Sub(Iv(1), eps));
    const Iv worth = Mul(Iv(b), Iv(price)), value = Add(worth, Iv(q));
    const Iv beta = Div(worth, value);
    const Tri over = Less(up, beta), under = Less(beta, down);
    const double v = b * price + q, scale = v / price;
    // Market branch.
    auto market_ok = [&](bool sell) {
      const double want = sell ? b - p[0] * v / price : p[0] * v / price - b;
      return got.size() == 1 && got[0].type == 'M' && got[0].side == (sell ? 'S' : 'B') && got[0].base && !got[0].has_price &&
             fabs(got[0].amt - want) <= 2e-6 * scale;
    };
    if (over != NO && market_ok(true)) return ++*market, "";
    if (under != NO && market_ok(false)) return ++*market, "";
    if (over == YES || under == YES) {
      const double want = over == YES ? b - p[0] * v / price : p[0] * v / price - b;
      return Fmt("share %.9g %s the band around %.9g: expected a market %s of %.9g base, got %s", beta.lo, over == YES ? "above" : "below", p[0],
                 over == YES ? "sell" : "buy", want, List(got).c_str());
    }
    // Inside the band (or too close to call): limit orders.
    const bool both = b > 1.001e-6 && q > 1.001e-6, none = b < 0.999e-6 || q < 0.999e-6;
    Tri sell = NO, buy = NO;
    Iv sp, bp;
    if (Less(up, Iv(1)) != NO) {
      Iv rest = Sub(Iv(1), up);
      if (rest.lo > 0) {
        sp = Div(Mul(up, Iv(q)), Mul(rest, Iv(b)));
        Tri a = Less(Iv(price), sp), z = Less(sp, Mul(Iv(100), Iv(price)));
        sell = a == NO || z == NO ? NO : a == YES && z == YES && Less(up, Iv(1)) == YES ? YES : MAYBE;
      } else {
        sell = MAYBE;
        sp = Iv(0, INFINITY);
      }
    }
    {
      Iv rest = Sub(Iv(1), down);
      bp = Div(Mul(down, Iv(q)), Mul(rest, Iv(b)));
      Tri a = Less(bp, Iv(price)), z = Less(Div(Iv(price), Iv(100)), bp);
      buy = a == NO || z == NO ? NO : a == YES && z == YES ? YES : MAYBE;
    }
    if (none) sell = buy = NO;
    if (!both && !none) {
      if (sell == YES) sell = MAYBE;
      if (buy == YES) buy = MAYBE;
    }
    const double sa = b * p[1] / (1.0 + p[1]), ba = b * p[1] / (1.0 - p[1]);
    bool got_sell = false, got_buy = false, strange = false;
    for (auto& o : got) {
      const bool s = o.side == 'S';
      const Iv& want = s ? sp : bp;
      const double amt = s ? sa : ba;
      if (o.type != 'L' || !o.base || !o.has_price || !want.Has(o.price) || fabs(o.amt - amt) > 2e-6 * amt) strange = true;
      if (s ? got_sell : got_buy) strange = true;
      (s ? got_sell : got_buy) = true;
    }
    if (strange || (got_sell ? sell == NO : sell == YES) || (got_buy ? buy == NO : buy == YES))
      return Fmt("share %.9g inside the band around %.9g: expected %s%s, got %s", beta.lo, p[0],
                 sell == NO ? "no sell" : Fmt("a limit sell of %.9g at %.9g", sa, sp.lo).c_str(),
                 buy == NO ? ", no buy" : Fmt(", a limit buy of %.9g at %.9g", ba, bp.lo).c_str(), List(got).c_str());
    *limits += got.size();
    return "";
  }
  static string Stop(const vector<float>& p, const Ev& u, const vector<OrderT>& got, bool first, int64_t* last_ts, char* mode, float* stop, int* moved) {
    const double price = u.t.c;
    const Tri is_long = LessEq(Iv(u.quote), Mul(Iv(u.base), Iv(price)));
    if (got.size() != 1 || got[0].type != 'S' || !got[0].has_price) return "expected exactly one stop order, got " + List(got);
    const OrderT& o = got[0];
    const char m = o.side == 'S' ? 'L' : 'C';
    if ((m == 'L' && is_long == NO) || (m == 'C' && is_long == YES))
      return Fmt("the larger holding is the %s one, but the order is a %s", is_long == YES ? "base" : "quote", Text(o).c_str());
    if (m == 'L' ? (!o.base || !Same(o.amt, u.base)) : (o.base || !Same(o.amt, u.quote))) return "the order does not cover the whole holding: " + Text(o);
    const bool reset = first || m != *mode || u.t.ts - *last_ts >= 3600;
    const float prev = *stop;
    const int64_t dt = std::min<int64_t>(86400, u.t.ts - *last_ts);
    *last_ts = u.t.ts, *mode = m, *stop = o.price;
    auto near = [&](double want) { return fabs(o.price - want) <= 2e-6 * want; };
    if (reset) {
      const double want = m == 'L' ? (1.0 - p[0]) * price : (1.0 + p[0]) * price;
      return near(want) ? "" : Fmt("the stop price must start at %.9g, the order is a %s", want, Text(o).c_str());
    }
    const Iv thr = Mul(m == 'L' ? Sub(Iv(1), Iv(p[1])) : Add(Iv(1), Iv(p[1])), Iv(price));
    const Tri move = m == 'L' ? LessEq(Iv(prev), thr) : LessEq(thr, Iv(prev));
    const double f = exp(log(m == 'L' ? 1.0 + p[2] : 1.0 - p[3]) * dt / 86400.0);
    const double t0 = (thr.lo + thr.hi) / 2;
    const double want = m == 'L' ? std::max((double)prev, std::min(t0, f * prev)) : std::min((double)prev, std::max(t0, f * prev));
    if (!Same(o.price, prev)) ++*moved;
    if (move != YES && Same(o.price, prev)) return "";
    if (move != NO && near(want)) return "";
    return Fmt("the stop price was %s, %lld s passed: expected %.9g, the order is a %s", Fl(prev).c_str(), (long long)dt, move == NO ? (double)prev : want, Text(o).c_str());
  }

 private:
  bool stop_;
};
static Register r16(new Strategy(false));
static Register r17(new Strategy(true));

}  // namespace sim
