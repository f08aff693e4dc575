// C15: the streaming indicators against their definitions.
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {

static const double kEps = 6e-8;  // half an ulp of a float near one

struct Piece {  // one delivery
  Ohlc t;
  float base = 1, quote = 0;
};
static Piece ParsePiece(const vector<string>& w) {
  Piece p;
  p.t.ts = atoll(w[1].c_str());
  float* f[] = {&p.t.o, &p.t.h, &p.t.l, &p.t.c, &p.t.v, &p.base, &p.quote};
  for (int i = 0; i < 7; ++i) *f[i] = strtof(w[2 + i].c_str(), nullptr);
  return p;
}
static string PieceLine(const Piece& p) {
  return Fmt("k %lld %.9g %.9g %.9g %.9g %.9g %.9g %.9g", (long long)p.t.ts, p.t.o, p.t.h, p.t.l, p.t.c, p.t.v, p.base, p.quote);
}

struct IndSpec {
  string kind, line;
  vector<double> p;
  int n = 3, period = 60;
};
static bool ParseSpec(const vector<string>& w, const string& line, IndSpec* s) {
  s->kind = w[1], s->line = line;
  for (size_t i = 2; i < w.size(); ++i) s->p.push_back(strtod(w[i].c_str(), nullptr));
  const size_t want = s->kind == "ema" ? 3 : s->kind == "macd" ? 4 : 2;
  if (s->p.size() != want) return false;
  s->n = (int)s->p[0], s->period = (int)s->p.back();
  if (s->period < 1 || s->n < (s->kind == "vol" ? 0 : 1)) return false;
  if (s->kind == "ema") return s->p[1] > 0 && s->p[1] <= 1 + s->n;
  if (s->kind == "macd") return s->p[1] >= 1 && s->p[2] >= 1;
  return s->kind == "sma" || s->kind == "rsi" || s->kind == "so" || s->kind == "vol" || s->kind == "last";
}

// The feed aggregated into periods.
struct Agg {
  int64_t period;
  vector<Ohlc> v;
  vector<double> val;   // worth of the portfolio at the end of every period; val[0]: before the first
  uint64_t flats = 0, updates = 0;
  double max_close = 0;
  explicit Agg(int64_t p) : period(p) {}
  void Add(const Piece& d) {
    const int64_t ts = d.t.ts / period * period;
    auto worth = [&](double price) { return (double)d.base * price + d.quote; };
    max_close = std::max(max_close, (double)fabs(d.t.c));
    ++updates;
    if (v.empty()) val.push_back(worth(d.t.o));
    if (!v.empty() && v.back().ts == ts) {
      Ohlc& b = v.back();
      b.h = std::max(b.h, d.t.h), b.l = std::min(b.l, d.t.l), b.c = d.t.c, b.v += d.t.v;
      val.back() = worth(d.t.c);
      return;
    }
    while (!v.empty() && v.back().ts + period < ts) {
      Ohlc g;
      g.ts = v.back().ts + period;
      g.o = g.h = g.l = g.c = v.back().c;
      g.v = 0;
      v.push_back(g);
      val.push_back(worth(g.c));
      ++flats, ++updates;
    }
    v.push_back(d.t);
    v.back().ts = ts;
    val.push_back(worth(d.t.c));
  }
};

struct Want {
  double v = 0, tol = 0;
  bool skip = false;
  string name;
};
static double Ema(const vector<double>& x, double w) {
  double e = x[0];
  for (size_t i = 1; i < x.size(); ++i) e = w * x[i] + (1 - w) * e;
  return e;
}
static vector<double> EmaSeries(const vector<double>& x, double w) {
  vector<double> e(x.size());
  for (size_t i = 0; i < x.size(); ++i) e[i] = i ? w * x[i] + (1 - w) * e[i - 1] : x[0];
  return e;
}

// K of the period j: (value, undecided).
static std::pair<double, bool> StochK(const vector<Ohlc>& v, size_t j, int n) {
  double lo = v[j].l, hi = v[j].h;
  for (size_t i = j; i + n > j && i < v.size(); --i) {
    lo = std::min(lo, (double)v[i].l), hi = std::max(hi, (double)v[i].h);
    if (i == 0) break;
  }
  const double span = hi - lo;
  if (span < 0.9e-6) return {50, false};
  if (span < 1.1e-6) return {50, true};
  return {100 * (v[j].c - lo) / span, false};
}

static vector<Want> Define(const IndSpec& s, const Agg& a, bool exact) {
  vector<Want> out;
  auto put = [&](const char* name, double v, double tol, bool skip = false) {
    Want w;
    w.v = v, w.tol = tol, w.skip = skip, w.name = name;
    out.push_back(w);
  };
  const vector<Ohlc>& v = a.v;
  const size_t P = v.size();
  const double U = a.updates, M = a.max_close;
  vector<double> close;
  for (auto& t : v) close.push_back(t.c);
  if (s.kind == "sma") {
    const size_t k = std::min<size_t>(P, s.n);
    double sum = 0;
    for (size_t i = P - k; i < P; ++i) sum += close[i];
    put("average", sum / k, exact ? 2 * kEps * M : 3 * U * kEps * M);
    put("number of periods", k, 0);
  } else if (s.kind == "ema") {
    const double w = s.p[1] / (1 + s.n);
    put("average", Ema(close, w), 8 * kEps * M * std::min<double>(P, 1 / w));
    put("number of periods", P, 0);
  } else if (s.kind == "macd") {
    const double wf = 2.0 / (1 + s.n), ws = 2.0 / (1 + s.p[1]), wg = 2.0 / (1 + s.p[2]);
    const double tf = 8 * kEps * M * std::min<double>(P, 1 / wf), ts = 8 * kEps * M * std::min<double>(P, 1 / ws);
    vector<double> f = EmaSeries(close, wf), l = EmaSeries(close, ws), d(P);
    for (size_t i = 0; i < P; ++i) d[i] = f[i] - l[i];
    const double tg = tf + ts + 8 * kEps * M * std::min<double>(P, 1 / wg);
    const double sig = Ema(d, wg);
    put("fast average", f[P - 1], tf);
    put("slow average", l[P - 1], ts);
    put("series", d[P - 1], tf + ts);
    put("signal", sig, tg);
    put("divergence", d[P - 1] - sig, tf + ts + tg);
    put("number of periods", P, 0);
  } else if (s.kind == "rsi") {
    double up = 0, down = 0, m = 0;
    for (size_t i = 0; i < P; ++i) {
      const double c = i ? close[i] - close[i - 1] : (double)v[0].c - v[0].o;
      const double w = 1.0 / std::min<double>(i + 1, s.n);
      const double cu = c > 0 ? c : 0, cd = c < 0 ? -c : 0;
      m = std::max(m, fabs(c));
      up = i ? w * cu + (1 - w) * up : cu;
      down = i ? w * cd + (1 - w) * down : cd;
    }
    const double tol = 8 * kEps * m * std::min<double>(P, s.n);
    put("upward average", up, tol);
    put("downward average", down, tol);
    const double big = std::max(up, down);
    if (big < 0.9e-6 - tol)
      put("index", 50, 1e-4);
    else
      put("index", 100 * up / (up + down), 3e-4 + 200 * tol / (up + down), big < 1.1e-6 + tol);
    put("number of periods", P, 0);
  } else if (s.kind == "so") {
    double lo = v[P - 1].l, hi = v[P - 1].h;
    for (size_t i = P - std::min<size_t>(P, s.n); i < P; ++i) lo = std::min(lo, (double)v[i].l), hi = std::max(hi, (double)v[i].h);
    put("low", lo, 0);
    put("high", hi, 0);
    auto k = StochK(v, P - 1, s.n);
    put("K", k.first, 1e-4, k.second);
    auto fast = [&](size_t j, bool* amb) {
      double sum = 0;
      int n = 0;
      for (int b = 0; b < 3 && (size_t)b <= j; ++b) {
        auto x = StochK(v, j - b, s.n);
        if (x.second) *amb = true;
        sum += x.first, ++n;
      }
      return sum / n;
    };
    bool amb = false;
    put("fast D", fast(P - 1, &amb), 0);
    out.back().tol = 2e-4 + 2.4e-5 * U, out.back().skip = amb;
    double sum = 0;
    int n = 0;
    for (int b = 0; b < 3 && (size_t)b <= P - 1; ++b) sum += fast(P - 1 - b, &amb), ++n;
    put("slow D", sum / n, 4e-4 + 4.8e-5 * U, amb);
    put("number of periods", P, 0);
  } else if (s.kind == "vol") {
    const size_t k = s.n == 0 ? P : std::min<size_t>(P, s.n);
    vector<double> x(P);
    double m = 0;
    for (size_t i = 0; i < P; ++i) x[i] = log(a.val[i] / a.val[i + 1]), m = std::max(m, fabs(x[i]));
    double mean = 0, var = 0;
    for (size_t i = P - k; i < P; ++i) mean += x[i] / k;
    for (size_t i = P - k; i < P; ++i) var += (x[i] - mean) * (x[i] - mean) / k;
    const double d = 6 * (U + 4) * kEps * m * m;
    const double want = sqrt(var);
    put("volatility", want, std::max(sqrt(var + d) - want, want - sqrt(std::max(0.0, var - d))) + 2e-6);
    put("number of periods", P, 0);
  } else {
    for (size_t i = P - std::min<size_t>(P, s.n); i < P; ++i) {
      put("start", v[i].ts, 0);
      put("open", v[i].o, 0);
      put("high", v[i].h, 0);
      put("low", v[i].l, 0);
      put("close", v[i].c, 0);
      put("volume", v[i].v, fabs(v[i].v) * kEps * 64);
    }
  }
  return out;
}

class C15 : public Check {
 public:
  C15() {
    id = "C15";
    rule = "random markets with outages (up to thousands of missed periods), delivered late, in bursts and in pieces of any size, are fed "
           "to several streaming indicators with random windows and period sizes, on one thread or on threads of their own under "
           "a seeded schedule with poisoned memory; after every delivery every value is compared with its definition evaluated "
           "from scratch over the periods so far; the same feed re-cut into fewer deliveries must give the same values; "
           "non-trivial: at least 3 periods";
    components = {"real: indicators/ (adapters/ind.cc)", "stub: threads, memory fill; the feed"};
    state_measure = "distinct (indicator, delivery pattern)";
    targets = {TG_IND};
    quick_runs = 40000;
    thorough_runs = 400000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool dyadic = r.Chance(1, 3);
    TickCfg c;
    c.start = r.PickOf<int64_t>({1500000000, 1483228800, 1577836800, 2147483640LL, 4294967290LL, 946684800, 300});
    c.period = r.PickOf({1, 60, 300, 300, 3600, 86400});
    c.start += r.Range(0, 40) * c.period;
    c.n = r.Chance(1, 400) ? r.Range(500, 1500) : r.Chance(1, 5) ? r.Range(80, 260) : r.Range(1, 60);
    c.p_zero = r.PickOf({0, 5, 20, 45});
    c.zero_run = r.PickOf({1, 2, 6});
    c.p_missing = r.PickOf({0, 2, 10, 30});
    c.p_jump = r.PickOf({0, 0, 4, 15});
    c.dyadic = dyadic;
    c.vol = r.PickOf({0.002, 0.01, 0.05});
    c.price0 = dyadic ? r.PickOf({128.0f, 100.0f, 512.0f}) : r.PickOf({0.01f, 1.0f, 100.0f, 3000.0f, 60000.0f});
    vector<Ohlc> t = GenTicks(r, c);
    if (r.Chance(1, 5))
      for (size_t a = r.Below(t.size()), i = a; i < t.size() && i < a + 12; ++i) {
        const Ohlc p = i ? t[i - 1] : t[i];
        t[i].o = t[i].h = t[i].l = t[i].c = p.c;  // a dead market
      }
    if (r.Chance(1, 3)) {  // an outage in the middle
      const size_t a = r.Below(t.size());
      const int64_t gap = c.period * r.PickOf({2, 3, 10, 60, 400, 2500});
      for (size_t i = a; i < t.size(); ++i) t[i].ts += gap;
    }
    // Deliveries: some ticks come in pieces, some share a time.
    vector<Piece> ps;
    const int pieces = r.PickOf({0, 0, 20, 60});
    float base = 1, quote = 0;
    const int trades = r.PickOf({0, 0, 10, 40});
    for (auto& x : t) {
      if (trades && r.Chance(trades, 100)) base = (float)r.PickOf({0.0, 1.0, 0.5, 2.25}), quote = base == 0 ? x.c * 2 : (float)r.PickOf({0.0, 100.0, 3.5});
      Piece p;
      p.t = x, p.base = base, p.quote = quote;
      if (r.Chance(pieces, 100)) {
        const int k = r.Range(2, 4);
        float last = x.o;
        const bool spread = r.Chance(1, 2) && c.period > 4;
        for (int i = 0; i < k; ++i) {
          Piece q = p;
          q.t.o = last;
          q.t.c = i == k - 1 ? x.c : r.PickOf({x.l, x.h, x.o, x.c});
          q.t.h = i == 0 ? x.h : std::max(q.t.o, q.t.c);
          q.t.l = i == k - 1 ? x.l : std::min(q.t.o, q.t.c);
          if (i == 0) q.t.l = std::min(q.t.l, std::min(q.t.o, q.t.c));
          q.t.h = std::max(q.t.h, std::max(q.t.o, q.t.c));
          q.t.l = std::min(q.t.l, std::min(q.t.o, q.t.c));
          q.t.v = x.v / 4;
          if (spread) q.t.ts += i * (c.period / 4);
          last = q.t.c;
          ps.push_back(q);
        }
      } else {
        ps.push_back(p);
      }
    }
    const int n = r.Range(1, 4);
    for (int i = 0; i < n; ++i) {
      const string kind = r.PickOf({"sma", "ema", "macd", "rsi", "so", "vol", "last"});
      const int len = r.PickOf({1, 2, 3, 4, 5, 9, 14, 26, 60});
      int64_t per = (int64_t)c.period * r.PickOf({1, 1, 2, 3, 5, 12, 24, 60});
      if (r.Chance(1, 10)) per = r.PickOf({7, 60, 90000, 604800});
      if (per > 2000000) per = 2000000;
      // Bounded work: no more than a few thousand periods.
      const int64_t span = ps.back().t.ts - ps[0].t.ts;
      while (span / per > 4000) per *= 2;
      if (kind == "ema") {
        double s = r.PickOf({2.0, 2.0, 1.0, 0.5, 3.0});
        if (s > 1 + len) s = 2;
        out.push_back(Fmt("n ema %d %g %lld", len, s, (long long)per));
      } else if (kind == "macd") {
        out.push_back(Fmt("n macd %d %d %d %lld", r.PickOf({1, 3, 12, 5}), r.PickOf({2, 26, 9, 60}), r.PickOf({1, 2, 9, 4}), (long long)per));
      } else {
        out.push_back(Fmt("n %s %d %lld", kind.c_str(), kind == "vol" && r.Chance(1, 4) ? 0 : len, (long long)per));
      }
    }
    out.push_back(Fmt("o threads %d", n > 1 && r.Chance(1, 4)));
    out.push_back(Fmt("o cut %d", r.PickOf({0, 0, 1})));
    out.push_back(Fmt("o dyadic %d", dyadic));
    for (auto& p : ps) out.push_back(PieceLine(p));
    GenSched(r, &out, false);
    GenMemEnv(r, "A", &out);
  }
  Lines Concretise(const Lines& in) override { return Opts(in).I("threads") ? ConcretiseSched(this, in) : in; }

  // One execution: per indicator the rows of values; false on a failed run.
  bool Execute(const Lines& in, const vector<IndSpec>& specs, const vector<Piece>& ps, bool threads, vector<vector<vector<double>>>* rows, Outcome* out) {
    string text = Fmt("o threads %d\n", threads);
    for (auto& s : specs) text += s.line + "\n";
    for (auto& p : ps) text += PieceLine(p) + "\n";
    SetScenario(text);
    Exec x = Do(TG_IND);
    if (threads) SaveSched();
    if (x.status != 0) return out->Fail(x.Hung() ? "hang" : "abort", Fmt("feeding the indicators ends with status %d: %.300s", x.status, x.err.c_str()));
    rows->clear();
    Lines l = SplitLines(x.trace);
    for (auto& s : l) {
      if (s == "END") continue;
      if (s == "B") {
        rows->emplace_back();
        continue;
      }
      rows->back().emplace_back();
      for (auto& w : Words(s)) rows->back().back().push_back(w == "nan" ? NAN : strtod(w.c_str(), nullptr));
    }
    bool ok = l.size() && l.back() == "END" && rows->size() == specs.size();
    for (auto& q : *rows) ok = ok && q.size() == ps.size();
    if (!ok) return out->Fail("abort", "the run produced no complete record");
    return true;
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    vector<IndSpec> specs;
    vector<Piece> ps;
    for (auto& s : in) {
      vector<string> w = Words(s);
      if (w.size() >= 4 && w[0] == "n") {
        IndSpec sp;
        if (ParseSpec(w, s, &sp)) specs.push_back(sp);
      } else if (w.size() == 9 && w[0] == "k") {
        Piece p = ParsePiece(w);
        const bool fine = p.t.ts > 0 && p.t.l > 0 && p.t.l <= p.t.o && p.t.l <= p.t.c && p.t.h >= p.t.o && p.t.h >= p.t.c && p.t.v >= 0 &&
                          p.base >= 0 && p.quote >= 0 && p.base + p.quote > 0 && (ps.empty() || ps.back().t.ts <= p.t.ts);
        if (fine) ps.push_back(p);
      }
    }
    if (specs.empty() || ps.empty()) return out.trivial = true, out;
    for (auto& s : specs)
      if ((ps.back().t.ts - ps[0].t.ts) / s.period > 20000) return out.trivial = true, out;
    const bool threads = o.I("threads");
    Reset();
    if (threads) {
      Lines sched;  // the threads here are the harness's own: their creation does not fail
      for (auto& s : in)
        if (s.compare(0, 5, "tfail") != 0) sched.push_back(s);
      ApplySched(sched, 0);
    }
    ApplyEnv(in, "A");
    vector<vector<vector<double>>> rows;
    if (!Execute(in, specs, ps, threads, &rows, &out)) return out;
    // Exact sums: short dyadic prices stay exact however they are added.
    bool exact = o.I("dyadic");
    for (auto& p : ps) exact = exact && p.t.c <= 4096 && p.t.c * 64 == floor(p.t.c * 64);
    out.trivial = true;
    vector<vector<vector<double>>> slack(specs.size());  // of the values above, as floats
    for (size_t i = 0; i < specs.size(); ++i) {
      const IndSpec& s = specs[i];
      Agg a(s.period);
      uint64_t h = HashBytes(3, s.line.data(), s.line.size());
      for (size_t j = 0; j < ps.size(); ++j) {
        const size_t before = a.v.size();
        a.Add(ps[j]);
        const int added = a.v.size() - before;
        h = HashBytes(h, &added, sizeof added);
        vector<Want> w = Define(s, a, exact && s.n <= 64);
        const vector<double>& g = rows[i][j];
        const string who = Fmt("%s after delivery %zu (time %lld, %zu periods of %d s so far): ", s.line.c_str(), j + 1, (long long)ps[j].t.ts, a.v.size(), s.period);
        if (g.size() != w.size()) return out.Fail("value", who + Fmt("%zu values, expected %zu", g.size(), w.size())), out;
        slack[i].emplace_back();
        for (auto& x : w) slack[i].back().push_back(x.skip ? INFINITY : x.tol);
        for (size_t k = 0; k < w.size(); ++k) {
          if (w[k].skip) {
            Probe("undecided values (thresholds)");
            continue;
          }
          if (w[k].tol == 0 ? (float)g[k] != (float)w[k].v : !(fabs(g[k] - w[k].v) <= w[k].tol + 1e-8 * fabs(w[k].v) + 1e-12))
            return out.Fail("value", who + Fmt("the %s is %.9g, by definition %.9g (+- %.2g)", w[k].name.c_str(), g[k], w[k].v, w[k].tol)), out;
        }
      }
      State(h);
      if (a.v.size() >= 3) out.trivial = false;
      Probe("periods", a.v.size());
      Probe("flat periods of outages", a.flats);
      Probe("deliveries", ps.size());
      Probe("runs of " + s.kind);
    }
    if (threads) Probe("threaded runs");
    if (o.I("cut")) {
      // The same feed in fewer deliveries: pieces within the smallest period of all
      // indicators (and with unchanged balances) are merged.
      vector<Piece> m;
      vector<size_t> last;
      for (size_t j = 0; j < ps.size(); ++j) {
        bool merge = !m.empty() && m.back().base == ps[j].base && m.back().quote == ps[j].quote;
        for (auto& s : specs) merge = merge && ps[j].t.ts / s.period == m.back().t.ts / s.period;
        if (merge) {
          Piece& b = m.back();
          b.t.h = std::max(b.t.h, ps[j].t.h), b.t.l = std::min(b.t.l, ps[j].t.l), b.t.c = ps[j].t.c, b.t.v += ps[j].t.v;
          last.back() = j;
        } else {
          m.push_back(ps[j]);
          last.push_back(j);
        }
      }
      if (m.size() < ps.size()) {
        Reset();
        vector<vector<vector<double>>> again;
        if (!Execute(in, specs, m, false, &again, &out)) return out;
        Probe("re-cut feeds");
        for (size_t i = 0; i < specs.size(); ++i)
          for (size_t j = 0; j < m.size(); ++j) {
            const vector<double>&x = rows[i][last[j]], &y = again[i][j];
            bool same = x.size() == y.size();
            for (size_t k = 0; same && k < x.size(); ++k) {
              double tol = fabs(x[k]) * 1e-6;
              if (specs[i].kind == "sma") tol = fabs(x[k]) * 2e-4;
              if (specs[i].kind == "last" && k == 5) tol = fabs(x[k]) * 6e-8 * (ps.size() + 16);  // a running float sum of the volume
              if (specs[i].kind == "macd") tol = 1e-5 * fabs(x[0]);
              tol = std::max(tol, 2 * slack[i][last[j]][k]);
              same = fabs(x[k] - y[k]) <= tol || (std::isnan(x[k]) && std::isnan(y[k]));
              if (!same)
                return out.Fail("split", Fmt("%s: value %zu at time %lld is %.9g when its data comes in pieces and %.9g when it comes at once", specs[i].line.c_str(), k + 1,
                                             (long long)m[j].t.ts, x[k], y[k])), out;
            }
            if (!same) return out.Fail("split", "different numbers of values"), out;
          }
      }
    }
    return out;
  }
};
static Register r15(new C15);

}  // namespace sim
