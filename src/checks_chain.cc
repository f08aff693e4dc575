// Checks of stored histories as inputs (C21) and of chains of programs (C22).
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {

static const char kReal[] = "real: convert.cc, trader.cc, base/, eval/, traders/, logging/, util/, protobuf, zlib, abseil, libstdc++ streams";
static const char kStub[] = "stub: disk and file system calls (in-memory simulated disk), clock, time zone, CPU count, allocator results";

// ================================================================ C21
class C21 : public Check {
 public:
  C21() {
    id = "C21";
    rule = "a stored history of trades or ticks (0..3000 records, records out of order, at impossible times, with impossible prices or volumes "
           "anywhere, period bounds on and between records) is read by the converter or the backtester, undisturbed and again with split, "
           "interrupted or failing reads; non-trivial: an invalid or out-of-period record exists or the reads were disturbed";
    components = {kReal, kStub};
    state_measure = "distinct (input file, period, outcome)";
    targets = {TG_CONVERT, TG_TRADER};
    quick_runs = 40000;
    thorough_runs = 250000;
  }
  void Generate(Rng& r, Lines& out) override {
    const char kind = r.PickOf({'p', 'o', 'o'});
    const bool trader = kind == 'o' && r.Chance(1, 3);
    out.push_back(Fmt("o kind %cp", kind));
    out.push_back(string("o out ") + (kind == 'p' ? r.PickOf({"p", "p", "po"}) : "o"));
    if (trader) out.push_back("o program trader");
    out.push_back(Fmt("o level %d", r.PickOf({0, 1, 6, 9})));
    const int n = !trader && r.Chance(1, 300) ? Mass(r) : r.Chance(1, 10) ? r.Range(200, trader ? 700 : 3000) : r.Chance(1, 15) ? 0 : r.Range(1, 25);
    vector<Price> p;
    vector<Ohlc> k;
    vector<int64_t> times;
    if (kind == 'p') {
      FeedCfg f = FeedCfg::Random(r);
      f.n = n;
      if (n > 200 && f.gap_max > 7200) f.gap_max = 7200;
      p = GenTrades(r, f);
      for (auto& t : p) times.push_back(t.ts);
    } else {
      k = RandomOhlc(r, n);
      if (!trader && r.Chance(1, 4)) for (auto& t : k) if (r.Chance(1, 2)) t.ts += r.Range(0, 59);  // on no grid
      if (!trader && r.Chance(1, 4)) for (size_t i = 1; i < k.size(); ++i) if (r.Chance(1, 5)) k[i].ts = k[i - 1].ts;
      std::stable_sort(k.begin(), k.end(), [](const Ohlc& a, const Ohlc& b) { return a.ts < b.ts; });
      if (r.Chance(1, 8)) for (auto& t : k) t.ts += 2800000000LL / 300 * 300;  // beyond 2^32
      for (auto& t : k) times.push_back(t.ts);
    }
    if (!trader && !times.empty()) {
      const int bad = r.PickOf({0, 0, 1, 1, 2, 3});
      for (int b = 0; b < bad; ++b) {
        const size_t i = r.Below(times.size());
        const float x = r.PickOf({0.0f, -1.0f, -0.001f, -1e30f});
        int64_t nt = times[i];
        switch (r.Below(8)) {
          case 0: nt = r.PickOf<int64_t>({0, -1, -1500000000}); break;
          case 1: nt -= r.PickOf<int64_t>({1, 60, 300, 100000, 30000000}); break;
          case 2: nt += r.PickOf<int64_t>({1, 300, 100000, 300000000}); break;
          case 3: if (kind == 'p') p[i].v = x == 0 ? -1e-20f : x; else k[i].v = x == 0 ? -1e-20f : x; break;
          default:
            if (kind == 'p') { p[i].p = x; break; }
            switch (r.Below(8)) {
              case 0: k[i].o = x; break;
              case 1: k[i].h = x; break;
              case 2: k[i].l = x; break;
              case 3: k[i].c = x; break;
              case 4: k[i].h = r.PickOf({k[i].o, k[i].c, k[i].l}); break;
              case 5: k[i].l = r.PickOf({k[i].o, k[i].c, k[i].h}); break;
              case 6: k[i].o = r.PickOf({nextafterf(k[i].h, 1e38f), nextafterf(k[i].l, 0), k[i].h, k[i].l}); break;
              case 7: k[i].c = r.PickOf({nextafterf(k[i].h, 1e38f), nextafterf(k[i].l, 0), k[i].h, k[i].l}); break;
            }
        }
        if (kind == 'p') p[i].ts = nt; else k[i].ts = nt;
      }
    }
    for (auto& t : p) out.push_back("r " + Row(t));
    for (auto& t : k) out.push_back("r " + Row(t));
    auto bound = [&]() -> string {
      int64_t t = times.empty() ? 1500000000 : r.Pick(times);
      t += r.PickOf({0, 0, 0, 1, -1, 1000});
      return TimeText(std::max<int64_t>(t, 1));
    };
    switch (r.Below(7)) {
      case 0: break;
      case 1: out.push_back("o start " + bound()); break;
      case 2: out.push_back("o end " + bound()); break;
      case 3: out.push_back("o start " + Epoch(r)), out.push_back("o end " + Epoch(r)); break;
      case 4: out.push_back("o start " + Epoch(r)); out.push_back("o end " + bound()); break;
      case 5: out.push_back("o start " + bound()); out.push_back("o end 2100-01-01"); break;
      case 6: out.push_back("o start " + bound()); out.push_back("o end " + bound()); break;
    }
    switch (r.Below(8)) {
      case 0: case 1: out.push_back(FaultLine("R", OP_READ, r.PickOf<int>({0, 9999, 9998, (int)r.Below(10000)}), FK_EIO, 0, ".pb")); break;
      case 2: for (int i = 0; i < 3; ++i) out.push_back(FaultLine("R", OP_READ, r.Below(10000), r.PickOf({FK_EINTR, FK_SHORT}), r.Range(1, 100), ".pb")); break;
      case 3: if (r.Chance(1, 4)) out.push_back(FaultLine("R", OP_OPEN, 0, FK_OPENFAIL, r.PickOf({2, 13, 24}), ".pb")); break;
      case 4: if (r.Chance(1, 3)) out.push_back(Fmt("env R alloc %d %d", (int)r.Range(0, 60), r.PickOf({512, 1024, 8192, 60000}))); break;
      default: break;
    }
    if (r.Chance(1, 2)) GenSoftEnv(r, "R", &out, true, 1);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    ConvJob j = ConvJob::From(o);
    const bool price = j.kind[0] == 'p', trader = o.S("program") == "trader" && !price;
    j.kind = price ? "pp" : "op";
    j.out_s = false;
    int64_t a = 1483228800, b = 1609459200;
    if (!j.start.empty()) ParseTimeArg(j.start, &a);
    if (!j.end.empty()) ParseTimeArg(j.end, &b);
    vector<Price> p = price ? PriceRows(in) : vector<Price>();
    vector<Ohlc> k = price ? vector<Ohlc>() : OhlcRows(in);
    bool stopped = false, odd = false;
    string why;
    Expect e;
    int64_t prev = 0;
    const size_t n = price ? p.size() : k.size();
    for (size_t i = 0; i < n && !stopped && why.empty(); ++i) {
      const int64_t ts = price ? p[i].ts : k[i].ts;
      if (a > 0 && ts < a) {
        odd = true;
        continue;
      }
      if (b > 0 && ts >= b) {
        odd = stopped = true;
        continue;
      }
      bool ok;
      if (price)
        ok = p[i].p > 0 && p[i].v >= 0;
      else
        ok = k[i].l > 0 && k[i].h >= std::max(k[i].o, k[i].c) && k[i].l <= std::min(k[i].o, k[i].c) && k[i].v >= 0;
      if (ts <= 0 || ts < prev) why = Fmt("the time of record %zu goes back or is not positive: ", i);
      else if (!ok) why = Fmt("record %zu is not possible: ", i);
      if (!why.empty()) {
        why += price ? Text(p[i]) : Text(k[i]);
        break;
      }
      prev = ts;
      if (price) e.p.push_back(p[i]); else e.o.push_back(k[i]);
    }
    const bool must_fail = !why.empty();
    if (trader) {
      for (size_t i = 1; i < k.size(); ++i) if (k[i].ts <= k[i - 1].ts) return out.trivial = true, out;
      if (must_fail) return out.trivial = true, out;
    }
    if (j.out_o && !e.p.empty()) e.clean_known = ModelOutliers(e.p, j.dev, &e.clean, &e.removed);
    if (!e.p.empty() && (e.p.back().ts - e.p.front().ts) / j.rate > 300000) j.out_o = false;
    const string bytes = price ? Gzip(EncodeRaw(p), o.I("level", 6)) : Gzip(EncodeRaw(k), o.I("level", 6));
    DiskPut("/sim/in.pb", bytes);
    const DiskImage disk0 = SaveDisk();
    vector<string> args = j.Args();
    if (trader) {
      args = {"trader", "--input_ohlc_history_delimited_proto_file=/sim/in.pb", "--trader=rebalancing", "--output_exchange_log_file=/sim/x.csv"};
      if (!j.start.empty()) args.push_back("--start_time=" + j.start); else args.push_back("--start_time=2017-01-01");
      if (!j.end.empty()) args.push_back("--end_time=" + j.end); else args.push_back("--end_time=2021-01-01");
    }
    auto judge = [&](const Exec& x, const char* when, bool hard, bool alloc) {
      if (x.status == 0) {
        if (must_fail) return out.Fail("invalid-accepted", Fmt("%s: the run succeeds although %s", when, why.c_str()));
        if (hard && (trader || !stopped)) return out.Fail("read-error-ignored", Fmt("%s: the run succeeds although reading the history failed", when));
        if (trader) {
          string f;
          DiskGet("/sim/x.csv", &f);
          vector<int64_t> ts;
          for (const string& l : SplitLines(f))
            if (l.size() > 4 && l.compare(l.size() - 4, 4, ",,,,") == 0) ts.push_back(atoll(l.c_str()));
          for (size_t i = 0; i < std::max(ts.size(), e.o.size()); ++i)
            if (i >= ts.size() || i >= e.o.size() || ts[i] != e.o[i].ts)
              return out.Fail("wrong-records", Fmt("%s: the backtest runs over %zu ticks, %zu are in the period; they differ from tick %zu on", when, ts.size(), e.o.size(), i));
          return true;
        }
        string d = CheckOutputs(j, e);
        if (!d.empty()) return out.Fail("wrong-records", Fmt("%s: the run succeeds, but %s", when, d.c_str()));
        for (const char* f : {kOutP, kOutO}) {
          string by, raw, w2;
          if (e.p.empty() && e.o.empty() && DiskGet(f, &by) && (!Gunzip(by, &raw, &w2) || !raw.empty()))
            return out.Fail("wrong-records", Fmt("%s: records are stored although no record is in the period", when));
        }
        return true;
      }
      if (x.Broken() && !alloc)
        return out.Fail("crash", Fmt("%s: the program %s instead of reporting an error: status %d %.200s", when, x.Hung() ? "hangs" : "crashes", x.status, x.err.c_str()));
      if (must_fail) {
        string by;
        for (const char* f : {kOutP, kOutO})
          if (DiskGet(f, &by) && !by.empty()) return out.Fail("partial-output", Fmt("%s: a refused history leaves records in %s", when, f));
        Probe("invalid history refused");
        return true;
      }
      if (hard) Probe("read error reported");
      if (hard || alloc) return true;
      return out.Fail("valid-refused", Fmt("%s: status %d for a valid history: %.300s", when, x.status, x.err.c_str()));
    };
    const Target target = trader ? TG_TRADER : TG_CONVERT;
    SetArgs(args);
    Exec e0 = Do(target);
    State(HashBytes(g_run.hash, bytes.data(), bytes.size()));
    if (!judge(e0, "undisturbed", false, false)) return out;
    const OpCounts base = CountOps();
    LoadDisk(disk0);
    Reset();
    SetArgs(args);
    ApplyFaults(in, "R", base);
    ApplyEnv(in, "R");
    Exec e1 = Do(target);
    const bool hard = FiredHard(".pb") > 0;
    const bool alloc = g_sh->res.stat[ST_ALLOC_FAIL] > 0;
    uint64_t any = 0;
    for (int i = 0; i < ST_NSTAT; ++i) any += i == ST_RANDOM ? 0 : g_sh->res.stat[i];
    out.trivial = !any && !must_fail && !odd;
    if (!judge(e1, "disturbed", hard, alloc)) return out;
    if (!hard && !alloc && e0.status != e1.status)
      return out.Fail("depends-on-chunking", Fmt("status %d undisturbed, %d with split reads", e0.status, e1.status)), out;
    return out;
  }
};
static Register r21(new C21);

// ================================================================ C22
class C22 : public Check {
 public:
  C22() {
    id = "C22";
    rule = "a chain of programs (trades imported and stored, converted to ticks, stored again, side input imported, backtested with logs; any "
           "compression, files of an earlier chain in the way) whose steps meet write, read, open, close and rename errors, full disks, kills, failing allocations and changing "
           "environments, each repeated until it reports success, against one undisturbed direct conversion and backtest; non-trivial: a "
           "step was disturbed";
    components = {kReal, kStub};
    state_measure = "distinct (disk image after the chain, failed steps)";
    targets = {TG_CONVERT, TG_TRADER};
    quick_runs = 7000;
    thorough_runs = 60000;
  }
  void Generate(Rng& r, Lines& out) override {
    FeedCfg f = FeedCfg::Random(r);
    f.n = r.Chance(1, 8) ? r.Range(300, 2500) : r.Range(2, 80);
    if (f.n > 200 && f.gap_max > 7200) f.gap_max = 7200;
    vector<Price> t = GenTrades(r, f);
    for (auto& x : t) out.push_back("r " + Row(x));
    const int64_t first = t.front().ts, last = t.back().ts;
    vector<int> rates;
    for (int q : {60, 300, 900, 3600, 86400}) if ((last - first) / q <= 2500) rates.push_back(q);
    out.push_back(Fmt("o rate %d", rates.empty() ? 7 * 86400 : r.Pick(rates)));
    if (r.Chance(1, 2)) out.push_back("o dev " + string(r.PickOf({"0.01", "0.2", "1", "0.002"})));
    if (r.Chance(1, 2)) out.push_back(Fmt("o gaps %d", r.PickOf({0, 1, 5})));
    if (r.Chance(1, 2)) out.push_back(Fmt("o outliers %d", r.PickOf({0, 1, 5})));
    auto when = [&]() { return first + (int64_t)r.Below(last - first + 1) + r.PickOf({0, 1}); };
    if (r.Chance(1, 3)) out.push_back("o start " + TimeText(when()));
    if (r.Chance(1, 3)) out.push_back("o end " + TimeText(when()));
    if (r.Chance(1, 3)) out.push_back("o tstart " + TimeText(when()));
    if (r.Chance(1, 3)) out.push_back("o tend " + TimeText(when()));
    if (r.Chance(2, 3)) {
      int64_t ts = std::max<int64_t>(0, first - r.Range(0, 5000));
      const int k = r.Range(1, 3), n = r.Range(1, 40);
      for (int i = 0; i < n; ++i) {
        Side s;
        s.ts = ts += r.Range(1, std::max<int64_t>(2, (last - first) / 10));
        for (int q = 0; q < k; ++q) s.s.push_back((float)(r.Unit() - 0.5));
        out.push_back("s " + Row(s));
      }
    }
    if (r.Chance(1, 3)) out.push_back(Fmt("o old %d", (int)r.Range(1, 2)));
    for (int i = 1; i <= 4; ++i) out.push_back(Fmt("o c%d %d", i, (int)r.Below(2)));
    out.push_back(string("o steps ") + r.PickOf({"12", "12", "123", "13"}));  // 13: the import converts as well
    out.push_back(string("o trader ") + r.PickOf({"rebalancing", "stop"}));
    if (r.Chance(1, 2)) out.push_back("o start_base " + string(r.PickOf({"0", "1", "2.5"}))), out.push_back("o start_quote " + string(r.PickOf({"0.01", "2500.25", "1000000"})));
    for (int i = 1; i <= 5; ++i) {
      const string ph = Fmt("A%d", i);
      const string file = i == 1 ? r.PickOf({"p1.pb", "o2.pb", "in.csv"}) : i == 2 ? r.PickOf({"o2.pb", "p1.pb"}) : i == 3 ? r.PickOf({"o3.pb", "o2.pb"})
                          : i == 4 ? r.PickOf({"s4.pb", "side.csv"}) : r.PickOf({"x.log", "t.log", "o2.pb", "o3.pb", "s4.pb", ".log"});
      const int nf = r.PickOf({0, 1, 1, 2});
      for (int q = 0; q < nf; ++q) {
        const int where = r.PickOf<int>({0, 9999, (int)r.Below(10000), (int)r.Below(10000)});
        switch (r.Below(10)) {
          case 0: out.push_back(FaultLine(ph, OP_WRITE, where, FK_EIO, 0, file)); break;
          case 1: out.push_back(FaultLine(ph, OP_WRITE, where, FK_ENOSPC, r.Range(0, 3000), file)); break;
          case 2: out.push_back(FaultLine(ph, OP_OPEN, where, FK_OPENFAIL, r.PickOf({13, 2, 28, 24}), file)); break;
          case 3: out.push_back(FaultLine(ph, OP_CLOSE, where, FK_CLOSEFAIL, 0, file)); break;
          case 4: out.push_back(FaultLine(ph, OP_READ, where, FK_EIO, 0, file)); break;
          case 5: out.push_back(FaultLine(ph, r.PickOf<int>({OP_READ, OP_WRITE}), where, r.PickOf({FK_EINTR, FK_SHORT}), r.Range(1, 300), file)); break;
          case 6: case 7: out.push_back(FaultLine(ph, OP_WRITE, where, FK_CRASH, r.PickOf<int>({0, 1, (int)r.Range(0, 8200)}), file)); break;
          case 8: out.push_back(FaultLine(ph, r.PickOf<int>({OP_OPEN, OP_CLOSE, OP_RENAME}), where, FK_CRASH, 0, file)); break;
          case 9:
            if (r.Chance(1, 2)) out.push_back(Fmt("env %s alloc %d %d", ph.c_str(), (int)r.Range(0, 100), r.PickOf({1024, 4096, 8192, 30000})));
            else out.push_back(FaultLine(ph, OP_RENAME, 0, FK_RENAMEFAIL, 28, file));
            break;
        }
      }
      if (r.Chance(1, 4)) GenSoftEnv(r, ph, &out, true, 3);
    }
  }
  static string Dated(const string& s) {  // the lines of a report that show dates
    string o;
    for (const string& l : SplitLines(s)) {
      bool d = false;
      for (size_t i = 0; !d && i + 10 <= l.size(); ++i)
        d = isdigit((unsigned char)l[i]) && isdigit((unsigned char)l[i + 1]) && isdigit((unsigned char)l[i + 2]) && isdigit((unsigned char)l[i + 3]) && l[i + 4] == '-' &&
            isdigit((unsigned char)l[i + 5]) && isdigit((unsigned char)l[i + 6]) && l[i + 7] == '-' && isdigit((unsigned char)l[i + 8]);
      if (d) o += l + "\n";
    }
    return o;
  }
  static string Differ(const string& a, const string& b) {
    vector<string> x = SplitLines(a), y = SplitLines(b);
    for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
      if (i >= x.size() || i >= y.size() || x[i] != y[i])
        return Fmt("line %zu is \"%.120s\" instead of \"%.120s\"", i, i < x.size() ? x[i].c_str() : "missing", i < y.size() ? y[i].c_str() : "nothing");
    return "";
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    string csv, side;
    Lines sides;
    for (const string& s : in) {
      if (s.compare(0, 2, "r ") == 0) csv += s.substr(2) + "\n";
      if (s.compare(0, 2, "s ") == 0) side += s.substr(2) + "\n", sides.push_back("r " + s.substr(2));
    }
    vector<Price> rows = PriceRows(in);
    const int64_t rate = o.I("rate", 300);
    if (rows.empty() || rate < 1 || (rows.back().ts - rows.front().ts) / rate > 20000) return out.trivial = true, out;
    const string steps = o.S("steps", "12");
    const bool s2 = steps.find('2') != string::npos, s3 = steps.find('3') != string::npos;
    auto comp = [&](int i) { return string("--compress=") + (o.I(Fmt("c%d", i)) ? "true" : "false"); };
    auto opt = [&](vector<string>* v, const char* k, const char* flag) { if (o.Has(k)) v->push_back(string("--") + flag + "=" + o.S(k)); };
    auto whole = [](vector<string>* v) { v->push_back("--start_time=1970-01-01"), v->push_back("--end_time=1970-01-01"); };
    // Options that decide what comes out; the same for the chain and for the direct conversion.
    auto rule = [&](vector<string>* v) {
      v->push_back(Fmt("--sampling_rate_sec=%d", (int)rate));
      if (o.Has("dev")) opt(v, "dev", "max_price_deviation_per_min");
      opt(v, "gaps", "top_n_gaps"), opt(v, "outliers", "last_n_outliers");
    };
    auto period = [&](vector<string>* v) {
      if (o.Has("start")) v->push_back("--start_time=" + o.S("start"));
      if (o.Has("end")) v->push_back("--end_time=" + o.S("end"));
    };
    struct Step {
      int no;
      Target t;
      vector<string> a;
    };
    auto backtest = [&](const string& ticks, const string& sid) {
      Step s{5, TG_TRADER, {"trader", "--input_ohlc_history_delimited_proto_file=" + ticks, "--trader=" + o.S("trader", "stop")}};
      if (!side.empty()) s.a.push_back("--input_side_history_delimited_proto_file=" + sid);
      opt(&s.a, "start_base", "start_base_balance"), opt(&s.a, "start_quote", "start_quote_balance");
      s.a.push_back("--start_time=" + (o.Has("tstart") ? o.S("tstart") : string("2017-01-01")));
      s.a.push_back("--end_time=" + (o.Has("tend") ? o.S("tend") : string("2021-01-01")));
      s.a.push_back("--output_exchange_log_file=/sim/x.log"), s.a.push_back("--output_trader_log_file=/sim/t.log");
      return s;
    };
    vector<Step> direct, chain;
    {
      Step d{0, TG_CONVERT, {"convert", "--input_price_history_csv_file=/sim/in.csv", "--output_ohlc_history_delimited_proto_file=/sim/o.pb"}};
      rule(&d.a), period(&d.a);
      direct.push_back(d);
      if (!side.empty()) {
        Step q{0, TG_CONVERT, {"convert", "--input_side_history_csv_file=/sim/side.csv", "--output_side_history_delimited_proto_file=/sim/s.pb"}};
        whole(&q.a);
        direct.push_back(q);
      }
      direct.push_back(backtest("/sim/o.pb", "/sim/s.pb"));
    }
    {
      Step a{1, TG_CONVERT, {"convert", "--input_price_history_csv_file=/sim/in.csv", "--output_price_history_delimited_proto_file=/sim/p1.pb", comp(1)}};
      if (!s2) a.a.push_back("--output_ohlc_history_delimited_proto_file=/sim/o2.pb"), rule(&a.a), period(&a.a);
      else whole(&a.a);
      chain.push_back(a);
      if (s2) {
        Step b{2, TG_CONVERT, {"convert", "--input_price_history_delimited_proto_file=/sim/p1.pb", "--output_ohlc_history_delimited_proto_file=/sim/o2.pb", comp(2)}};
        rule(&b.a), period(&b.a);
        chain.push_back(b);
      }
      if (s3) {
        Step c{3, TG_CONVERT, {"convert", "--input_ohlc_history_delimited_proto_file=/sim/o2.pb", "--output_ohlc_history_delimited_proto_file=/sim/o3.pb", comp(3)}};
        whole(&c.a);
        chain.push_back(c);
      }
      if (!side.empty()) {
        Step d{4, TG_CONVERT, {"convert", "--input_side_history_csv_file=/sim/side.csv", "--output_side_history_delimited_proto_file=/sim/s4.pb", comp(4)}};
        whole(&d.a);
        chain.push_back(d);
      }
      chain.push_back(backtest(s3 ? "/sim/o3.pb" : "/sim/o2.pb", "/sim/s4.pb"));
    }
    DiskReset();
    DiskPut("/sim/in.csv", csv);
    DiskPut("/sim/side.csv", side);
    const DiskImage disk0 = SaveDisk();
    // Without ticks there is no file to go on with.
    struct Result {
      vector<Ohlc> ticks;
      string report, trading, x, t;
      bool ended = false;
    } want, got;
    auto finish = [&](Result* q, const string& ticks, const Exec& last) {
      string by, why;
      if (DiskGet(ticks, &by) && !DecodeFile(by, &q->ticks, &why)) return out.Fail("wrong-ticks", ticks + ": " + why);
      q->trading = Dated(last.out);
      DiskGet("/sim/x.log", &q->x), DiskGet("/sim/t.log", &q->t);
      return true;
    };
    Exec e;
    string by;
    for (const Step& s : direct) {
      Reset();
      if (s.t == TG_TRADER && (!DiskGet("/sim/o.pb", &by))) {
        want.ended = true;
        break;
      }
      SetArgs(s.a);
      e = Do(s.t);
      if (e.status) return out.Fail(e.Hung() ? "hang" : "direct-failure", Fmt("the undisturbed direct %s ends with status %d: %.200s", s.t == TG_TRADER ? "backtest" : "conversion", e.status, e.err.c_str())), out;
      if (&s == &direct[0]) want.report = Dated(e.out);
    }
    if (!finish(&want, "/sim/o.pb", e)) return out;
    vector<Price> in_p = InPeriod(rows, Bound(o, "start", 1483228800), Bound(o, "end", 1609459200));
    if (in_p.empty() != want.ticks.empty()) return out.Fail("direct-wrong", Fmt("%zu ticks of %zu trades", want.ticks.size(), in_p.size())), out;
    LoadDisk(disk0);
    if (o.I("old") && !want.ended) {  // the files of an earlier chain over other data
      vector<Price> p = o.I("old") == 1 ? (s2 ? rows : in_p) : vector<Price>(7, Price{1500000000, 7, 7});
      vector<Ohlc> t = o.I("old") == 1 ? want.ticks : vector<Ohlc>(7, Ohlc{1500000000, 7, 7, 7, 7, 7});
      vector<Side> sd = SideRows(sides);
      for (auto& x : p) x.p *= 1.25f;
      for (auto& x : t) x.o *= 1.25f, x.h *= 1.25f, x.l *= 1.25f, x.c *= 1.25f;
      for (auto& x : sd) for (float& f : x.s) f += 1;
      DiskPut("/sim/p1.pb", Gzip(EncodeRaw(p), 6));
      DiskPut("/sim/o2.pb", Gzip(EncodeRaw(t), 6));
      if (s3) DiskPut("/sim/o3.pb", Gzip(EncodeRaw(t), 6));
      if (!side.empty()) DiskPut("/sim/s4.pb", Gzip(EncodeRaw(sd), 6));
      DiskPut("/sim/x.log", want.x + "1,2,3\n"), DiskPut("/sim/t.log", string(want.t.size(), '7'));
    }
    int failed = 0;
    uint64_t any = 0;
    for (const Step& s : chain) {
      if ((s.no == 2 && !DiskGet("/sim/p1.pb", &by)) || (s.no == 3 && !DiskGet("/sim/o2.pb", &by)) || (s.no == 5 && !DiskGet(s3 ? "/sim/o3.pb" : "/sim/o2.pb", &by))) {
        got.ended = true;
        if (s.no == 2) break;
        continue;
      }
      const DiskImage before = SaveDisk();
      // What the step does undisturbed, to place the faults.
      const string ph = Fmt("A%d", s.no);
      bool faults = false;
      for (const string& l : in) faults = faults || l.compare(0, 7 + ph.size(), "fault " + ph + " ") == 0;
      OpCounts base{};
      if (faults) {
        Reset();
        SetArgs(s.a);
        Do(s.t);
        base = CountOps();
        LoadDisk(before);
      }
      Reset();
      SetArgs(s.a);
      if (faults) ApplyFaults(in, ph, base);
      ApplyEnv(in, ph);
      e = Do(s.t);
      for (int i = 0; i < ST_NSTAT; ++i) any += i == ST_RANDOM ? 0 : g_sh->res.stat[i];
      const bool excuse = e.Crashed() || FiredHard("") || FiredHard("", true) || g_sh->res.stat[ST_ALLOC_FAIL] || g_sh->res.stat[ST_EINTR];
      if (e.status) {
        if (e.Hung()) return out.Fail("hang", Fmt("step %d does not end", s.no)), out;
        if (!excuse) return out.Fail("step-refused", Fmt("step %d ends with status %d although nothing failed: %.200s", s.no, e.status, e.err.c_str())), out;
        ++failed;
        Probe(Fmt("step %d repeated", s.no));
        Reset();
        SetArgs(s.a);
        e = Do(s.t);
        if (e.status) return out.Fail("repeat-fails", Fmt("the repeated step %d ends with status %d: %.200s", s.no, e.status, e.err.c_str())), out;
      }
      if (s.no == (s2 ? 2 : 1)) got.report = Dated(e.out);
      string why, d;
      vector<Price> kept;
      vector<Side> signals;
      if (s.no == 1 && !in_p.empty()) {
        if (!DiskGet("/sim/p1.pb", &by)) return out.Fail("wrong-trades", "the imported trades are not stored"), out;
        if (!DecodeFile(by, &kept, &why) || !(why = Diff(kept, s2 ? rows : in_p)).empty()) return out.Fail("wrong-trades", Fmt("the stored trades after %d failed steps: ", failed) + why), out;
      }
      if (s.no == 4) {
        if (!DiskGet("/sim/s4.pb", &by)) return out.Fail("wrong-signals", "the imported side input is not stored"), out;
        if (!DecodeFile(by, &signals, &why) || !(why = Diff(signals, SideRows(sides))).empty()) return out.Fail("wrong-signals", "the stored side input: " + why), out;
      }
    }
    out.trivial = any == 0;
    if (!finish(&got, s3 ? "/sim/o3.pb" : "/sim/o2.pb", e)) return out;
    State(HashBytes(g_run.hash, &failed, sizeof failed));
    string d = Diff(got.ticks, want.ticks);
    if (!d.empty()) return out.Fail("wrong-ticks", Fmt("after %d failed steps, all repeated, the ticks of the chain differ from those of the direct conversion: ", failed) + d), out;
    if (got.ended || want.ended) return out;
    if (!(d = Differ(got.report, want.report)).empty()) return out.Fail("wrong-report", "gap report and outlier listing of the chain: " + d), out;
    if (!(d = Differ(got.x, want.x)).empty()) return out.Fail("wrong-log", "exchange log of the chain: " + d), out;
    if (!(d = Differ(got.t, want.t)).empty()) return out.Fail("wrong-log", "trader log of the chain: " + d), out;
    if (!(d = Differ(got.trading, want.trading)).empty()) return out.Fail("wrong-report", "backtest report of the chain: " + d), out;
    Probe("whole chain compared");
    if (failed) Probe("chain with failed steps compared");
    return out;
  }
  static int64_t Bound(const Opts& o, const char* key, int64_t d) {
    if (o.Has(key)) ParseTimeArg(o.S(key), &d);
    return d;
  }
};
static Register r22(new C22);

}  // namespace sim
