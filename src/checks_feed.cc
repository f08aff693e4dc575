// Checks of the feed processing: C10 resampling, C11 glitch filter, C18 gap report, C20 listing.
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {

static const char kRealE[] = "real: base/history.cc on in-memory feeds (adapters/engine.cc); the whole conversion program (convert.cc, base/history.cc, util/proto.h, protobuf) in the pipeline runs";
static const char kStubE[] = "stub: disk, clock, time zone, memory fill, I/O chunking; the market and its feed";

// Faults of the feed, on top of what GenTrades makes: repeated and dropped trades.
static void FeedFaults(Rng& r, vector<Price>* v) {
  if (v->empty()) return;
  if (r.Chance(1, 4)) {  // bursts: trades delivered twice
    vector<Price> o;
    for (auto& t : *v) {
      o.push_back(t);
      if (r.Chance(1, 6)) for (int k = r.Range(1, 3); k > 0; --k) o.push_back(t);
    }
    *v = o;
  }
  if (r.Chance(1, 4)) {  // an outage: a run of trades is lost
    size_t a = r.Below(v->size()), n = r.Range(1, std::max<int64_t>(1, v->size() / 3));
    v->erase(v->begin() + a, v->begin() + std::min(v->size(), a + n));
  }
}
static void PutFeed(const vector<Price>& v, bool pipeline, Lines* out) {
  for (auto& t : v)
    out->push_back(pipeline ? "r " + Row(t) : Fmt("p %lld %.9g %.9g", (long long)t.ts, t.p, t.v));
}
static vector<Price> FeedOf(const Lines& in, bool pipeline) {
  if (pipeline) return PriceRows(in);
  vector<Price> v;
  for (const string& s : in) {
    if (s.compare(0, 2, "p ") != 0) continue;
    vector<string> w = Words(s);
    if (w.size() == 4) v.push_back({atoll(w[1].c_str()), strtof(w[2].c_str(), nullptr), strtof(w[3].c_str(), nullptr)});
  }
  return v;
}
static bool Ordered(const vector<Price>& v) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].ts <= 0 || (i && v[i].ts < v[i - 1].ts)) return false;
  return true;
}
// Runs the converter on the feed.
static Exec Convert(const Lines& in, const ConvJob& j, Expect* e) {
  DiskReset();
  Reset();
  SetInput(j, in, Opts(in), e);
  SetArgs(j.Args());
  ApplyEnv(in, "A");
  return Do(TG_CONVERT);
}
static bool BadRun(const Exec& x, Outcome* out) {
  if (x.status == 0) return false;
  out->Fail(x.Hung() ? "hang" : "abort", Fmt("the conversion ends with status %d: %.300s", x.status, x.err.c_str()));
  return true;
}
static bool BadEngine(const Exec& x, Outcome* out) {
  if (x.status == 0 && x.trace.size() >= 4 && x.trace.compare(x.trace.size() - 4, 4, "END\n") == 0) return false;
  out->Fail(x.Hung() ? "hang" : "abort", Fmt("status %d: %.300s", x.status, x.err.c_str()));
  return true;
}
static void PipeOpts(Rng& r, const char* outs, Lines* out) {
  out->push_back(string("o kind ") + r.PickOf({"pc", "pp"}));
  out->push_back(string("o out ") + outs);
  out->push_back("o start 1970-01-01");
  out->push_back("o end 2200-01-01");
  if (r.Chance(1, 2)) out->push_back(Fmt("o compress %d", (int)r.Below(2)));
  if (r.Chance(1, 2)) GenSoftEnv(r, "A", out);
}
static bool Pipeline(const Opts& o) { return o.S("via") == "converter"; }

// ================================================================ C10
class C10 : public Check {
 public:
  C10() {
    id = "C10";
    rule = "feeds with outages of up to months, bursts, equal times, lost and repeated trades, trades on and around period borders, resampled "
           "at rates of 1 s to several days, in memory and through the converter with glitch filter and storage; judged by a from-scratch "
           "aggregation; non-trivial: at least one period without trades and one with several";
    components = {kRealE, kStubE};
    state_measure = "distinct resampled histories";
    targets = {TG_ENGINE, TG_CONVERT};
    quick_runs = 45000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool pipe = r.Chance(1, 3);
    int rate = r.PickOf({1, 7, 60, 300, 300, 900, 3600, 86400, 100000, 604800});
    FeedCfg f = FeedCfg::Random(r);
    f.n = r.Chance(1, 10) ? r.Range(200, 1500) : r.Range(0, 60);
    if (r.Chance(1, 300)) f.n = Mass(r);
    if (r.Chance(1, 3)) f.start = r.PickOf<int64_t>({1, 2147483600LL, 4294967200LL, 6000000000LL}) + r.Below(3);
    if (r.Chance(1, 5)) f.gap_max = 86400LL * r.PickOf({40, 400});
    const int64_t span = (int64_t)f.n * (f.dt_max + f.gap_max * f.p_gap / 100) / 2 + f.gap_max;
    const int64_t most = r.Chance(1, 200) ? 150000 : 15000;
    if (most > 15000 && span / rate < 1000 && f.n > 1) rate = std::max<int64_t>(1, span / 60000);
    while (span / rate > most) rate *= 10;
    vector<Price> v = GenTrades(r, f);
    FeedFaults(r, &v);
    if (r.Chance(1, 3)) {  // on and around period borders
      int64_t prev = 1;
      for (auto& t : v) {
        if (r.Chance(1, 2)) t.ts = t.ts / rate * rate + r.PickOf({0, 0, -1, 1, rate - 1});
        if (t.ts < prev) t.ts = prev;
        prev = t.ts;
      }
    }
    PutFeed(v, pipe, &out);
    out.push_back(Fmt("o rate %d", rate));
    if (pipe) {
      out.push_back("o via converter");
      out.push_back("o dev " + string(r.PickOf({"0.05", "1000000", "0.25"})));
      PipeOpts(r, r.PickOf({"o", "po"}), &out);
    }
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool pipe = Pipeline(o);
    vector<Price> v = FeedOf(in, pipe);
    const int64_t rate = o.I("rate", 300);
    if (!Ordered(v) || rate < 1 || v.empty() || (v.back().ts - v.front().ts) / rate > 60000) return out.trivial = true, out;
    vector<Ohlc> got;
    if (pipe) {
      ConvJob j = ConvJob::From(o);
      j.out_o = true;
      Expect e;
      Exec x = Convert(in, j, &e);
      if (BadRun(x, &out)) return out;
      string bytes, why;
      if (!DiskGet(kOutO, &bytes)) return out.Fail("ticks", "no OHLC history is stored"), out;
      if (!DecodeFile(bytes, &got, &why)) return out.Fail("ticks", "the stored OHLC history is damaged: " + why), out;
      if (!e.clean_known) {
        Probe("discarded: filter decision too close");
        return out.trivial = true, out;
      }
      v = e.clean;
      const string line = Fmt("Resampled %zu records to %zu OHLC ticks\n", v.size(), got.size());
      if (x.out.find(line) == string::npos) return out.Fail("report", "the program does not report: " + line), out;
    } else {
      SetScenario(Join(in) + "o mode resample\n");
      Exec x = Do(TG_ENGINE);
      if (BadEngine(x, &out)) return out;
      for (auto& e : ParseTrace(x.trace)) if (e.k == 'k') got.push_back(e.t);
    }
    string d = CompareOhlc(got, v, rate);
    if (!d.empty()) return out.Fail("ticks", d), out;
    size_t empty = 0, multi = 0;
    for (auto& t : got) empty += t.v == 0, multi += t.h != t.l;
    Probe("empty periods", empty);
    out.trivial = !empty || !multi;
    uint64_t h = 1;
    for (auto& t : got) h = HashBytes(h, &t, sizeof t);
    State(h);
    return out;
  }
};
static Register r10(new C10);

// ================================================================ C11, C20
// A feed built around the filter's decisions: jumps to, just below and beyond the edge of the
// band, followed by trades of which few or enough persist, with invalid trades in between.
static vector<Price> GlitchFeed(Rng& r, float dev, bool invalid) {
  vector<Price> v;
  int64_t ts = r.PickOf<int64_t>({1500000000, 1483228800, 4294967000LL});
  float ref = r.PickOf({64.0f, 1024.0f, 0.5f, 100.0f, 3333.3f});
  v.push_back({ts, ref, 1});
  const int blocks = r.Range(1, 8);
  auto bad = [&]() {
    if (invalid && r.Chance(1, 6))
      v.push_back({ts, r.PickOf({0.0f, -5.0f, ref}), v.size() % 2 ? -1.0f : 1.0f});
    if (invalid && v.back().p > 0 && v.back().v >= 0 && r.Chance(1, 20)) v.push_back({ts, 0.0f, 1.0f});
  };
  for (int b = 0; b < blocks; ++b) {
    const int m = r.PickOf({1, 1, 1, 4, 9, 16, 25, 100, 2, 3, 7});
    ts += r.Chance(1, 3) ? r.Range(0, 60) : 60LL * m + r.PickOf({0, 0, 0, 1, -1});
    const double minutes = std::max(1.0, (ts - v.back().ts) / 60.0);
    double f = (1.0 + dev) * sqrt(minutes);
    const bool up = r.Chance(1, 2);
    const double edge = up ? ref * f : ref / f;
    const double on = dev == 0.25f || dev == 0.5f || dev == 1.0f ? 1.0 : 1.00001;
    double p = edge * r.PickOf({on, on, 1.00001, 0.99999, 1.001, 0.999, up ? 1.05 : 0.95, up ? 3.0 : 0.2});
    v.push_back({ts, (float)p, (float)r.Below(4)});
    bad();
    const bool beyond = up ? p > edge : p < edge;
    if (!beyond && r.Chance(2, 3)) {
      ref = p;
      continue;
    }
    // What follows: k of the next n trades persist.
    const int n = r.PickOf({10, 10, 10, 11, 9, 5, 3, 12}), k = r.PickOf({0, 1, 2, 2, 3, 3, 4, n});
    vector<int> keep(n);
    for (int i = 0; i < n; ++i) keep[i] = i < k;
    for (int i = n - 1; i > 0; --i) std::swap(keep[i], keep[r.Below(i + 1)]);
    if (r.Chance(1, 3)) for (int i = 0; i < n; ++i) keep[i] = i >= n - k;
    const double line = ref + 0.8 * (edge - ref);
    for (int i = 0; i < n; ++i) {
      ts += r.PickOf({0, 0, 1, 1, 5});
      double q = keep[i] ? (r.Chance(1, 3) ? (line + edge) / 2 : edge * (up ? 1.02 : 0.98)) : r.Chance(1, 2) ? ref : (ref + line) / 2;
      if (r.Chance(1, 6)) q = line * r.PickOf({1.0001, 0.9999});
      if (!keep[i] && r.Chance(1, 10)) q = up ? ref / f / 1.3 : ref * f * 1.3;  // beyond the other side
      v.push_back({ts, (float)q, (float)r.Below(3)});
      bad();
    }
    if (k >= 3) ref = p;
    if (r.Chance(1, 2)) ref = v.back().p > 0 ? v.back().p : ref;
  }
  return v;
}

class Glitch : public Check {
 public:
  explicit Glitch(bool listing) : listing_(listing) {
    id = listing ? "C20" : "C11";
    rule = string("feeds with glitches and genuine moves of all lengths around the filter's decisions (jumps on, just inside and just beyond the "
           "band, 0-12 following trades of which few or enough persist, invalid trades in between, elapsed times of 0 s to weeks) ") +
           (listing ? "through the converter with random I/O chunking, clock and zone; the printed listing is judged by a model over the removed "
                      "trades; non-trivial: at least two removed trades"
                    : "in memory and through the converter; judged by an independent model, decisions within 2e-6 of a line are discarded "
                      "unless floats hold them exactly; non-trivial: some trade removed and some jump kept");
    components = {kRealE, kStubE};
    state_measure = "distinct (feed, removed trades) pairs";
    targets = {TG_ENGINE, TG_CONVERT};
    quick_runs = listing ? 36000 : 90000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool pipe = listing_ || r.Chance(1, 4);
    const float dev = r.PickOf({0.05f, 0.05f, 0.25f, 0.5f, 1.0f, 0.01f, 0.1f});
    vector<Price> v;
    if (r.Chance(1, 3)) {
      FeedCfg f = FeedCfg::Random(r);
      f.n = r.Chance(1, 10) ? r.Range(100, 800) : r.Range(0, 80);
      if (r.Chance(1, 150)) f.n = Mass(r);
      f.p_glitch = r.PickOf({1, 5, 15, 40});
      f.p_jump = r.PickOf({0, 3, 10});
      v = GenTrades(r, f);
      FeedFaults(r, &v);
      if (!pipe && r.Chance(1, 2))
        for (auto& t : v) if (r.Chance(1, 12)) (r.Chance(1, 2) ? t.p : t.v) = r.PickOf({-1.0f, -0.001f});
    } else {
      v = GlitchFeed(r, dev, !pipe);
    }
    PutFeed(v, pipe, &out);
    out.push_back("o dev " + Fl(dev));
    if (!pipe) {
      if (r.Chance(1, 4)) out.push_back("o noidx 1");
      return;
    }
    out.push_back("o via converter");
    if (r.Chance(2, 3) || listing_) out.push_back(Fmt("o outliers %d", r.PickOf({0, 1, 2, 3, 5, 20, 100})));
    int rate = r.PickOf({1, 60, 300});
    while (!v.empty() && (v.back().ts - v.front().ts) / rate > 50000) rate *= 10;
    out.push_back(Fmt("o rate %d", rate));
    PipeOpts(r, r.PickOf({"o", "po"}), &out);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool pipe = Pipeline(o);
    vector<Price> v = FeedOf(in, pipe), want;
    vector<size_t> removed;
    const float dev = o.D("dev", 0.05);
    const int64_t rate = o.I("rate", 300);
    if (!Ordered(v) || v.empty() || !(dev > 0)) return out.trivial = true, out;
    if (pipe && (rate < 1 || (v.back().ts - v.front().ts) / rate > 60000)) {
      // Too many ticks for this rate.
      return out.trivial = true, out;
    }
    if (!ModelOutliers(v, dev, &want, &removed)) {
      Probe("discarded: decision too close");
      return out.trivial = true, out;
    }
    size_t jumps = 0;
    for (size_t i = 1; i < want.size(); ++i) jumps += want[i].p > want[i - 1].p * (1 + dev) || want[i].p * (1 + dev) < want[i - 1].p;
    uint64_t h = HashBytes(1, v.data(), 0);
    for (auto& t : v) h = HashBytes(h, &t.p, sizeof t.p);
    for (size_t i : removed) h = HashBytes(h, &i, sizeof i);
    State(h);
    out.trivial = listing_ ? removed.size() < 2 : removed.empty() || !jumps;
    Probe("removed trades", removed.size());
    if (!pipe) {
      SetScenario(Join(in) + "o mode outliers\n");
      Exec x = Do(TG_ENGINE);
      if (BadEngine(x, &out)) return out;
      vector<Price> got;
      vector<size_t> idx;
      for (auto& l : SplitLines(x.trace)) {
        vector<string> w = Words(l);
        if (w.size() == 4 && w[0] == "p") got.push_back({atoll(w[1].c_str()), strtof(w[2].c_str(), nullptr), strtof(w[3].c_str(), nullptr)});
        if (w.size() == 2 && w[0] == "x") idx.push_back(atoll(w[1].c_str()));
      }
      string d = Diff(got, want);
      if (!d.empty()) return out.Fail("filter", "the filtered feed: " + d), out;
      if (!o.I("noidx") && idx != removed) return out.Fail("positions", "the reported positions of the removed trades differ: " + Where(v, idx, removed)), out;
      return out;
    }
    ConvJob j = ConvJob::From(o);
    j.out_o = true;
    Expect e;
    Exec x = Convert(in, j, &e);
    if (BadRun(x, &out)) return out;
    string d = CheckOutputs(j, e);
    if (!d.empty() && !listing_) return out.Fail("filter", d), out;
    const string line = Fmt("Removed %zu outliers\n", removed.size());
    if (x.out.find(line) == string::npos) return out.Fail("report", "the program does not report: " + line), out;
    // The listing.
    const size_t n = o.Has("outliers") ? o.I("outliers") : 20;
    const size_t first = n == 0 || removed.size() <= n ? 0 : removed.size() - n;
    std::map<size_t, bool> list;
    for (size_t k = first; k < removed.size(); ++k) {
      const size_t i = removed[k];
      for (size_t q = i >= 5 ? i - 5 : 0; q <= i + 5 && q < v.size(); ++q) list[q] = list[q] || q == i;
    }
    string text;
    size_t prev = 0;
    bool any = false;
    vector<string> rows, marked;
    for (auto& kv : list) {
      const Price& t = v[kv.first];
      rows.push_back(Fmt("%s %lld [%s]: %.2f [%.4f]", kv.second ? " x" : "  ", (long long)t.ts, TimeText(t.ts).c_str(), t.p, t.v));
      if (kv.second) marked.push_back(rows.back());
      if (any && kv.first > prev + 1) Probe("separated parts"), rows.insert(rows.end() - 1, "   ...");
      prev = kv.first;
      any = true;
    }
    vector<string> got, gmarked;
    bool on = false;
    for (auto& l : SplitLines(x.out)) {
      if (l.compare(0, 5, "Last ") == 0 && l.find(" outliers:") != string::npos) { on = true; continue; }
      if (on && l.compare(0, 9, "Resampled") == 0) break;
      if (!on) continue;
      got.push_back(l);
      if (l.compare(0, 3, " x ") == 0) gmarked.push_back(l);
    }
    auto diff = [](const vector<string>& a, const vector<string>& b) -> string {
      for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        if (i >= a.size() || i >= b.size() || a[i] != b[i])
          return Fmt("row %zu is \"%s\", expected \"%s\"", i, i < a.size() ? a[i].c_str() : "missing", i < b.size() ? b[i].c_str() : "nothing");
      return "";
    };
    d = listing_ ? diff(got, rows) : diff(gmarked, marked);
    if (!d.empty()) return out.Fail("listing", "the listing of removed trades: " + d), out;
    return out;
  }
  static string Where(const vector<Price>& v, const vector<size_t>& got, const vector<size_t>& want) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
      if (i >= got.size() || i >= want.size() || got[i] != want[i])
        return Fmt("number %zu is %lld, expected %lld", i, i < got.size() ? (long long)got[i] : -1LL, i < want.size() ? (long long)want[i] : -1LL);
    return "";
  }

 private:
  bool listing_;
};
static Register r11(new Glitch(false));
static Register r20(new Glitch(true));

// ================================================================ C18
class C18 : public Check {
 public:
  C18() {
    id = "C18";
    rule = "feeds with outages of equal and different lengths, bursts and equal times, N of 0 to more than there are intervals, through the "
           "converter (CSV and stored histories, whole and partial periods) and in memory with and without period bounds; judged by a sort of "
           "all intervals; non-trivial: more intervals than listed, some of equal length";
    components = {kRealE, kStubE};
    state_measure = "distinct reports";
    targets = {TG_ENGINE, TG_CONVERT};
    quick_runs = 60000;
    thorough_runs = 300000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool pipe = r.Chance(1, 2);
    FeedCfg f = FeedCfg::Random(r);
    f.n = r.Chance(1, 10) ? r.Range(200, 1500) : r.Range(1, 60);
    if (r.Chance(1, 300)) f.n = Mass(r);
    f.p_gap = r.PickOf({0, 10, 30});
    vector<Price> v = GenTrades(r, f);
    FeedFaults(r, &v);
    if (r.Chance(1, 2)) {  // few different lengths
      const int64_t len[] = {0, 1, 60, 3600, 90061, 100 * 3600};
      for (size_t i = 1; i < v.size(); ++i) v[i].ts = v[i - 1].ts + len[r.Below(r.PickOf({3, 4, 6}))];
    }
    if (!v.empty() && r.Chance(1, 4)) {  // outages of weeks to decades
      if (r.Chance(1, 2)) {
        const int64_t first = v[0].ts - r.Range(1, 1000);
        for (auto& x : v) x.ts -= first;
      }
      for (int k = r.PickOf({1, 2, 2, 3}); k; --k) {
        const int64_t gap = r.PickOf<int64_t>({999 * 3600, 1000 * 3600, 86400 * 300, 2147483647LL, 2147483648LL, 2200000000LL, 5000000000LL}) + r.Range(0, 2);
        const size_t at = r.Below(v.size());
        if (v.back().ts + gap < 7258000000LL) for (size_t i = at; i < v.size(); ++i) v[i].ts += gap;
      }
    }
    PutFeed(v, pipe, &out);
    const int n = v.size();
    const int top = r.PickOf({1, 2, 3, 5, 50, 50, n - 1, n, n + 5});
    if (pipe) {
      out.push_back("o via converter");
      PipeOpts(r, r.PickOf({"p", "po"}), &out);
      if (r.Chance(3, 4)) out.push_back(Fmt("o gaps %d", std::max(0, r.Chance(1, 10) ? 0 : top)));
      if (!v.empty() && r.Chance(1, 4)) {
        out.push_back("o start " + TimeText(v[r.Below(v.size())].ts + r.PickOf({0, 0, 1, -1})));
        if (r.Chance(1, 2)) out.push_back("o end " + TimeText(v[r.Below(v.size())].ts + r.PickOf({0, 0, 1, -1})));
      }
      out.push_back("o rate 86400");
    } else {
      out.push_back(Fmt("o top %d", std::max(1, top)));
      if (!v.empty() && r.Chance(1, 3)) out.push_back(Fmt("o start %lld", (long long)v[0].ts - r.PickOf<int64_t>({0, 1, 3600, 1000000})));
      if (!v.empty() && r.Chance(1, 3)) out.push_back(Fmt("o end %lld", (long long)v.back().ts + r.PickOf<int64_t>({0, 1, 3600, 1000000})));
    }
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool pipe = Pipeline(o);
    vector<Price> v = FeedOf(in, pipe);
    if (!Ordered(v)) return out.trivial = true, out;
    vector<string> got, want;
    vector<Gap> model, all;
    if (pipe) {
      ConvJob j = ConvJob::From(o);
      Expect e;
      Exec x = Convert(in, j, &e);
      if (BadRun(x, &out)) return out;
      model = ModelGaps(e.p, 0, 0, j.gaps >= 0 ? j.gaps : 50);
      all = ModelGaps(e.p, 0, 0, e.p.size() + 1);
      for (auto& g : model) {
        const int64_t n = g.b - g.a;
        want.push_back(Fmt("%lld [%s] - %lld [%s]: %lld:%02d:%02d", (long long)g.a, TimeText(g.a).c_str(), (long long)g.b, TimeText(g.b).c_str(),
                           (long long)(n / 3600), (int)(n / 60 % 60), (int)(n % 60)));
      }
      bool on = false;
      for (auto& l : SplitLines(x.out)) {
        if (l.compare(0, 4, "Top ") == 0 && l.find(" gaps:") != string::npos) { on = true; continue; }
        if (!on) continue;
        if (l.find("] - ") == string::npos) break;
        got.push_back(l);
      }
    } else {
      const int64_t s = o.I("start"), e = o.I("end"), top = o.I("top", 10);
      if (top < 1 || v.empty() || (s > 0 && s > v[0].ts) || (e > 0 && e < v.back().ts)) return out.trivial = true, out;
      SetScenario(Join(in) + "o mode gaps\n");
      Exec x = Do(TG_ENGINE);
      if (BadEngine(x, &out)) return out;
      model = ModelGaps(v, s, e, top);
      all = ModelGaps(v, s, e, v.size() + 5);
      for (auto& g : model) want.push_back(Fmt("g %lld %lld", (long long)g.a, (long long)g.b));
      for (auto& l : SplitLines(x.trace)) if (l.compare(0, 2, "g ") == 0) got.push_back(l);
    }
    uint64_t h = 1;
    for (auto& l : want) h = HashBytes(h, l.data(), l.size());
    State(h);
    std::set<int64_t> lens;
    for (auto& g : all) lens.insert(g.b - g.a);
    out.trivial = model.size() >= all.size() || lens.size() == all.size();
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
      if (i >= got.size() || i >= want.size() || got[i] != want[i])
        return out.Fail("gaps", Fmt("gap %zu is \"%s\", expected \"%s\"", i, i < got.size() ? got[i].c_str() : "missing", i < want.size() ? want[i].c_str() : "nothing")), out;
    return out;
  }
};
static Register r18(new C18);

// ================================================================ C19
class C19 : public Check {
 public:
  C19() {
    id = "C19";
    rule = "the converter or the backtester selects a period given in random notations (with and without time, offset, T) of instants from 1970 to 9999, on and "
           "around year, month and leap-day borders, with offsets that move the day, under random zones, clocks and I/O chunking, on a feed with "
           "trades on and around the bounds; the printed period and the stored trades (or evaluated ticks) are judged by a calendar model; a second run "
           "takes the printed bounds as input and must print and store the same; texts that name no instant must be refused; instants from the year "
           "1000 to 9890 with fractions of a second go through the library; non-trivial: a bound with an offset or a zone other than UTC";
    components = {"real: conversion and backtest programs (convert.cc, trader.cc, util/time.cc, absl time), run twice", "stub: disk, clock, time zone, memory fill, I/O chunking"};
    state_measure = "distinct (notation, instant) pairs";
    targets = {TG_CONVERT, TG_TRADER, TG_ENGINE};
    quick_runs = 48000;
    thorough_runs = 200000;
  }
  static int64_t Instant(Rng& r) {
    int64_t y = r.PickOf<int64_t>({1970, 1971, 1999, 2000, 2016, 2017, 2019, 2020, 2021, 2024, 2037, 2038, 2099, 2100, 2106, 2400, 9998, (int64_t)r.Range(1970, 2200)});
    int m = r.Range(1, 12), d = 1;
    switch (r.Below(5)) {
      case 0: m = r.PickOf({1, 2, 3, 12}); d = r.PickOf({1, 28, 31}); break;
      case 1: m = 2; d = 29; break;
      case 2: m = r.PickOf({3, 10, 11}); d = r.Range(1, 31); break;  // summer time changes
      default: d = r.Range(1, 31);
    }
    int64_t day = DaysFromCivil(y, m, 1) + d - 1;
    return std::max<int64_t>(0, day * 86400 + (r.Chance(1, 3) ? 0 : r.Chance(1, 3) ? r.PickOf({1, 3599, 3600, 43200, 86399}) : r.Range(0, 86399)));
  }
  // A notation of (about) this instant.
  static string Notation(Rng& r, int64_t ts, int64_t* denoted) {
    const int kind = r.Below(5);
    const bool off = kind == 1 || kind == 3 || kind == 4;
    int o = 0;
    if (off) o = r.Chance(1, 6) ? 0 : (r.PickOf({0, 1, 2, 5, 9, 12, 13, 14}) * 60 + r.PickOf({0, 0, 30, 45, 59})) * (r.Chance(1, 2) ? 1 : -1);
    string t = TimeText(ts), z = Fmt("%c%02d:%02d", o < 0 || (o == 0 && r.Chance(1, 2)) ? '-' : '+', abs(o) / 60, abs(o) % 60);
    if (kind <= 1) t = t.substr(0, 10), ts -= (ts % 86400 + 86400) % 86400;
    *denoted = ts - o * 60;
    if (kind == 1 || kind == 3) t += " " + z;
    if (kind == 4) t[10] = 'T', t += z;
    return t;
  }
  static string NoInstant(Rng& r) {
    return r.PickOf({"2020-02-30", "2021-02-29", "2100-02-29", "2020-13-01", "2020-00-10", "2020-01-00", "2020-01-32", "2020-04-31", "2020-01-01 24:00:00",
                     "2020-01-01 12:60:00", "2020-01-01 12:00", "2020-01-01T12:00:00", "2020-01-01T12:00:00Zulu", "2020-01-01 12:00:00 UTC", "2020-01-01 12:00:00 +5",
                     "2020-01-01 +25:00", "2020-01-01x", "2020-01-01 12:00:00x", "2020-01-01 x", "today", "now", "2020/01/01", "01-01-2020", "2020-01", "2020",
                     "1577836800", "2020-01-01 00:00:00 2020-01-02 00:00:00", "2020-01-01,2020-01-02"});
  }
  // An instant that need not be one of a trade.
  static int64_t AnyInstant(Rng& r) {
    if (r.Chance(1, 2)) return Instant(r);
    if (r.Chance(1, 2)) return r.PickOf<int64_t>({0, -1, 1, -86400, -2208988800LL, -2147483649LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, -30000000000LL}) + r.Range(-1, 1);
    return r.Range(-30000000000LL, 250000000000LL);
  }
  void Generate(Rng& r, Lines& out) override {
    int64_t a, b;
    if (r.Chance(1, 5)) {
      out.push_back("o via library");
      for (int n = r.Range(1, 12); n; --n) {
        string s = Notation(r, AnyInstant(r), &a);
        if (r.Chance(1, 10)) out.push_back("time " + NoInstant(r)), out.push_back("is -");
        else if (r.Chance(1, 2)) out.push_back("time " + s), out.push_back(Fmt("is %lld", (long long)a));
        else out.push_back(Fmt("when %lld %d", (long long)AnyInstant(r), (int)r.PickOf<int>({0, 0, 1, 499999999, 500000000, 999999999})));
      }
      GenMemEnv(r, "A", &out);
      return;
    }
    int64_t x = Instant(r), y = r.Chance(1, 2) ? Instant(r) : x + r.PickOf<int64_t>({1, 3600, 86400, 86400 * 31, 86400 * 366});
    if (y < x) std::swap(x, y);
    y = std::min<int64_t>(y, 253402300799LL - 86400), x = std::min(x, y);
    const bool trader = r.Chance(1, 5);
    if (trader) {
      // (A backtest across millennia without data would take the indicators as long.)
      y = std::min(y, x + 86400 * 400);
      out.push_back("o via trader");
    }
    if (!trader && r.Chance(1, 10)) x = AnyInstant(r);
    string s = Notation(r, x, &a), e = Notation(r, y, &b);
    if (r.Chance(1, 25)) {
      out.push_back(string("bad ") + (r.Chance(1, 2) ? "start " : "end ") + NoInstant(r));
    }
    out.push_back(Fmt("t %lld ", (long long)a) + s);
    out.push_back(Fmt("t %lld ", (long long)b) + e);
    std::set<int64_t> ts;
    for (int64_t t : {a, b})
      for (int64_t d : {-86400, -43200, -3600, -1, 0, 1, 3600, 43200, 86400})
        if (t + d > 0 && r.Chance(2, 3)) ts.insert(t + d);
    for (int64_t t : ts) out.push_back(Fmt("r %lld,1,1", (long long)t));
    GenSoftEnv(r, "A", &out);
    out.push_back(string("env A tz ") + r.PickOf({"UTC", "America/New_York", "Asia/Kolkata", "EST5EDT", "XYZ-13:45", "Pacific/Apia", "Europe/London"}));
  }
  Outcome RunLibrary(const Lines& in) {
    Outcome out;
    vector<string> want;
    for (size_t i = 0; i < in.size(); ++i) {
      vector<string> w = Words(in[i]);
      if (w.size() == 3 && w[0] == "when") {
        want.push_back("F " + TimeText(atoll(w[1].c_str())));
      } else if (w.size() > 1 && w[0] == "time") {
        vector<string> k = i + 1 < in.size() ? Words(in[i + 1]) : vector<string>();
        if (k.size() != 2 || k[0] != "is") return out.trivial = true, out;
        want.push_back("T " + k[1] + (k[1] == "-" ? "" : " 0"));
      }
    }
    Reset();
    SetScenario(Join(in) + "o mode time\n");
    ApplyEnv(in, "A");
    Exec x = Do(TG_ENGINE);
    if (BadEngine(x, &out)) return out;
    vector<string> got = SplitLines(x.trace);
    out.trivial = want.size() < 2;
    for (size_t i = 0; i < want.size(); ++i) {
      State(HashBytes(1, want[i].data(), want[i].size()));
      if (i >= got.size() || got[i] != want[i])
        return out.Fail("instant", Fmt("date-time %zu is \"%s\", expected \"%s\"", i, i < got.size() ? got[i].c_str() : "missing", want[i].c_str())), out;
    }
    return out;
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    const Opts o(in);
    if (o.S("via") == "library") return RunLibrary(in);
    const bool trader = o.S("via") == "trader";
    vector<int64_t> at;
    vector<string> text;
    string bad[2];
    for (const string& s : in) {
      if (s.compare(0, 2, "t ") == 0) {
        size_t p = s.find(' ', 2);
        if (p == string::npos) continue;
        at.push_back(atoll(s.c_str() + 2));
        text.push_back(s.substr(p + 1));
      }
      if (s.compare(0, 10, "bad start ") == 0) bad[0] = s.substr(10);
      if (s.compare(0, 8, "bad end ") == 0) bad[1] = s.substr(8);
    }
    vector<Price> v = PriceRows(in);
    if (text.size() != 2 || at[1] <= 0 || at[0] > at[1] || (trader && (at[0] <= 0 || at[1] - at[0] > 86400 * 500))) return out.trivial = true, out;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].ts < 1 || (i && v[i].ts <= v[i - 1].ts)) return out.trivial = true, out;
    ConvJob j = ConvJob::From(o);
    j.out_p = true, j.out_o = false;
    const char* xlog = "/sim/x.log";
    for (auto& s : text) State(HashBytes(1, s.data(), s.size()));
    auto run = [&](const string& s, const string& t, Expect* e) {
      DiskReset();
      Reset();
      if (trader) {
        vector<Ohlc> h;
        for (auto& p : v) h.push_back({p.ts, 1, 1, 1, 1, 1});
        StoreHistory(h, {});
        SetArgs(TraderArgs(false, {"--start_time=" + s, "--end_time=" + t, string("--output_exchange_log_file=") + xlog}));
        ApplyEnv(in, "A");
        return Do(TG_TRADER);
      }
      ConvJob k = j;
      k.start = k.end = "";
      SetInput(k, in, o, e);
      j.start = s, j.end = t;
      SetArgs(j.Args());
      ApplyEnv(in, "A");
      return Do(TG_CONVERT);
    };
    if (!bad[0].empty() || !bad[1].empty()) {
      Expect e;
      Exec x = run(bad[0].empty() ? text[0] : bad[0], bad[1].empty() ? text[1] : bad[1], &e);
      if (x.Crashed() || x.Hung()) return BadRun(x, &out), out;
      if (x.status == 0) return out.Fail("not-refused", Fmt("\"%s%s\" is taken for a date-time", bad[0].c_str(), bad[1].c_str())), out;
      string by;
      if (DiskGet(kOutP, &by) || DiskGet(xlog, &by)) return out.Fail("not-refused", "an output was written although a bound is not a date-time"), out;
      Probe("text that is no date-time refused");
      return out;
    }
    for (int round = 0; round < 2; ++round) {
      Expect e;
      Exec x = run(text[0], text[1], &e);
      e.p = InPeriod(v, at[0], at[1]);
      if (BadRun(x, &out)) return out;
      const string want = "[" + TimeText(at[0]) + " - " + TimeText(at[1]) + ")";
      size_t p = x.out.find('['), q = x.out.find(')', p == string::npos ? 0 : p);
      const string got = p == string::npos || q == string::npos ? "nothing" : x.out.substr(p, q - p + 1);
      if (got != want) return out.Fail("instant", Fmt("\"%s\" and \"%s\" are taken for %s, expected %s", text[0].c_str(), text[1].c_str(), got.c_str(), want.c_str())), out;
      if (trader) {
        string log;
        DiskGet(xlog, &log);
        string have, need;
        for (auto& l : SplitLines(log)) {
          vector<string> f = Split(l, ',');
          if (f.size() > 9 && f[9].empty()) have += f[0] + " ";
        }
        for (auto& t : e.p) need += Fmt("%lld ", (long long)t.ts);
        if (have != need) return out.Fail("selection", Fmt("period \"%s\" to \"%s\": the ticks evaluated are %s, expected %s", text[0].c_str(), text[1].c_str(), have.c_str(), need.c_str())), out;
        Probe("period of a backtest");
      } else {
        string d = CheckOutputs(j, e);
        if (!d.empty()) return out.Fail("selection", Fmt("period \"%s\" to \"%s\": %s", text[0].c_str(), text[1].c_str(), d.c_str())), out;
        if (e.p.empty()) {
          string by, raw, why;
          if (DiskGet(kOutP, &by) && (!Gunzip(by, &raw, &why) || !raw.empty())) return out.Fail("selection", "records are stored although none is in the period"), out;
        }
      }
      if (round == 0) {
        bool off = false;
        for (auto& s : text) off = off || s.find(':') != string::npos;
        out.trivial = !off;
        // What was printed names the same instants.
        size_t mid = got.find(" - ");
        text = {got.substr(1, mid - 1), got.substr(mid + 3, got.size() - mid - 4)};
      }
    }
    return out;
  }
};
static Register r19(new C19);

}  // namespace sim
