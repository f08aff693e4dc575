// Checks of the conversion program: C01, C02, C03, C10, C11, C18.
#include <cmath>

#include "conv.h"

namespace sim {

static const char kReal[] = "real: convert.cc, base/history.cc, util/proto.h, util/time.cc, protobuf, zlib, abseil, libstdc++ streams";
static const char kStub[] = "stub: disk and file system calls (in-memory simulated disk), clock, time zone, CPU count, allocator results";

// ================================================================ C01
class C01 : public Check {
 public:
  C01() {
    id = "C01";
    rule = "a conversion (one of 5 input kinds, 0..3000 records, 1-2 outputs, compression on/off, old files in the way) runs "
           "undisturbed, then from the same disk with a fault plan on the outputs, then again without faults; non-trivial: at "
           "least one fault of the plan fired or a soft disturbance split an operation";
    components = {kReal, kStub};
    state_measure = "distinct (disk image, exit status) after the disturbed run";
    targets = {TG_CONVERT};
    quick_runs = 30000;
    thorough_runs = 120000;
  }
  void Generate(Rng& r, Lines& out) override {
    const string kind = r.PickOf({"pc", "pc", "pp", "oc", "op", "sc"});
    out.push_back("o kind " + kind);
    out.push_back(string("o out ") + (kind[0] == 'p' ? r.PickOf({"p", "o", "po", "po"}) : kind[0] == 'o' ? "o" : "s"));
    if (r.Chance(1, 2)) out.push_back(Fmt("o compress %d", (int)r.Below(2)));
    int n = r.Chance(1, 8) ? r.Range(400, 3000) : r.Chance(1, 12) ? 0 : r.Range(1, 60);
    FeedCfg f = FeedCfg::Random(r);
    f.n = n;
    if (n > 300 && f.gap_max > 7200) f.gap_max = 7200;
    const bool bulk = r.Chance(1, 600);
    if (bulk)
      out.push_back(Fmt("bulk %c %d %d", kind[0], (int)r.PickOf<int>({65535, 65536, 65537, 70000, (int)r.Range(20000, 140000)}), (int)r.Range(1, 1 << 30)));
    else if (kind[0] == 'p')
      for (auto& t : GenTrades(r, f)) out.push_back("r " + Row(t));
    else if (kind[0] == 'o')
      for (auto& t : RandomOhlc(r, n)) out.push_back("r " + Row(t));
    else
      for (auto& t : RandomSide(r, std::min(n, 800), f.start)) out.push_back("r " + Row(t));
    for (const char* p : {kOutP, kOutO, kOutS})
      if (r.Chance(1, 4)) out.push_back(Fmt("old %s %d %d", p, (int)r.PickOf({0, 1, 20, 5000, 300000}), (int)r.Below(2)));
    const int nf = r.PickOf({0, 1, 1, 1, 1, 2, 3});
    for (int i = 0; i < nf; ++i) {
      const string file = r.PickOf({".out", ".out", "p.out", "o.out", "s.out"});
      const int where = r.PickOf<int>({0, 0, 9999, 9998, (int)r.Below(10000), (int)r.Below(10000)});
      switch (r.Below(9)) {
        case 0: out.push_back(FaultLine("A", OP_WRITE, where, FK_EIO, 0, file)); break;
        case 1: out.push_back(FaultLine("A", OP_WRITE, where, FK_ENOSPC, r.PickOf<int>({0, 0, 1, 100, (int)r.Range(0, 9000)}), file)); break;
        case 2: out.push_back(FaultLine("A", OP_OPEN, where, FK_OPENFAIL, r.PickOf({13, 2, 28, 24, 30}), file)); break;
        case 3: out.push_back(FaultLine("A", OP_CLOSE, where, FK_CLOSEFAIL, 0, file)); break;
        case 4: out.push_back(FaultLine("A", OP_WRITE, where, FK_EINTR, 0, file)); break;
        case 5: out.push_back(FaultLine("A", OP_WRITE, where, FK_SHORT, r.PickOf<int>({1, 9, (int)r.Range(1, 8000)}), file)); break;
        case 6: out.push_back(FaultLine("A", OP_WRITE, where, FK_CRASH, r.PickOf<int>({0, 1, 10, (int)r.Range(0, 8200), 1 << 20}), file)); break;
        case 7: out.push_back(FaultLine("A", r.PickOf<int>({OP_OPEN, OP_CLOSE}), where, FK_CRASH, 0, file)); break;
        case 8:
          if (r.Chance(1, 2))
            out.push_back(Fmt("env A capacity %d", (int)r.PickOf<int>({0, 1, 19, 20, 40, 4096, 8191, 8192, (int)r.Range(0, 20000)})));
          else
            out.push_back(Fmt("env A alloc %d %d", (int)r.Range(0, 40), r.PickOf({1024, 4096, 8192, 30000})));
          break;
      }
    }
    // (Nothing to hit unless an output is written aside and moved into place.)
    if (r.Chance(1, 20)) out.push_back(FaultLine("A", OP_RENAME, 0, r.PickOf({FK_RENAMEFAIL, FK_CRASH}), r.PickOf({5, 13, 18, 28, 30}), ".out"));
    if (!bulk && r.Chance(1, 3)) GenSoftEnv(r, "A", &out, true, 3);
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    ConvJob j = ConvJob::From(o);
    j.end = "2030-01-01";
    Expect e;
    SetInput(j, in, o, &e);
    for (const string& s : in) {
      vector<string> w = Words(s);
      if (w.size() == 4 && w[0] == "old") {
        size_t n = atoi(w[2].c_str());
        vector<Price> v(n / 14 + 1, Price{1400000000, 5, 5});
        string b = atoi(w[3].c_str()) ? Gzip(EncodeRaw(v), 0) : string(n, 'x');
        DiskPut(w[1], b);
      }
    }
    const DiskImage disk0 = SaveDisk();
    SetArgs(j.Args());
    Exec e0 = Do(TG_CONVERT);
    if (e0.status != 0)
      return out.Fail("undisturbed-failure", Fmt("undisturbed conversion ends with status %d: %.200s", e0.status, e0.err.c_str())), out;
    string d = CheckOutputs(j, e);
    if (!d.empty()) return out.Fail("undisturbed-wrong-output", "undisturbed conversion succeeds, but " + d), out;
    const OpCounts base = CountOps();

    LoadDisk(disk0);
    Reset();
    SetArgs(j.Args());
    ApplyFaults(in, "A", base);
    ApplyEnv(in, "A");
    Exec e1 = Do(TG_CONVERT);
    const int hard = FiredHard(".out"), near = FiredHard(".out", true);
    const bool alloc = g_sh->res.stat[ST_ALLOC_FAIL] > 0;
    uint64_t any = 0;
    for (int i = 0; i < ST_NSTAT; ++i) any += i == ST_RANDOM ? 0 : g_sh->res.stat[i];
    out.trivial = any == 0;
    State(HashBytes(g_run.hash, &e1.status, 4));
    if (e1.Crashed()) {
      Probe("killed while converting");
    } else if (e1.status == 0) {
      d = CheckOutputs(j, e);
      if (!d.empty())
        return out.Fail("success-wrong-output", Fmt("exit status 0 with %d failed operations, but %s", hard, d.c_str())), out;
      if (hard)
        return out.Fail("fault-not-reported", Fmt("exit status 0 although %d output operations failed", hard)), out;
      if (any) Probe("disturbed run succeeded with the right output");
    } else {
      // An interrupted transfer may be reported as failed.
      if (!hard && !near && !alloc && !g_sh->res.stat[ST_EINTR])
        return out.Fail("spurious-failure", Fmt("status %d although no operation failed: %.200s", e1.status, e1.err.c_str())), out;
      Probe("failed output operation was reported");
    }
    if (e1.status != 0) {
      // Repeat on the disk the disturbed run left behind.
      Reset();
      SetArgs(j.Args());
      Exec e2 = Do(TG_CONVERT);
      if (e2.status != 0) return out.Fail("repeat-fails", Fmt("the repeated run ends with status %d: %.200s", e2.status, e2.err.c_str())), out;
      d = CheckOutputs(j, e);
      if (!d.empty()) return out.Fail("repeat-wrong-output", "the repeated run succeeds, but " + d), out;
      Probe("repeat after a failed or killed run");
    }
    return out;
  }
};
static Register r01(new C01);

// ================================================================ C02
// Stored histories, damaged.
class C02 : public Check {
 public:
  C02() {
    id = "C02";
    rule = "a stored history (written by the real writer or an independent encoder at any compression level) is damaged "
           "(truncated, torn by a kill, bit-flipped, zeroed sectors, replaced), overwritten while it is read, or its reads fail, "
           "and is then loaded by the loader, the converter and the backtester; non-trivial: damage or a read fault took effect";
    components = {"real: util/proto.h, convert.cc, trader.cc, protobuf, zlib, abseil, libstdc++ streams; thin driver around "
                  "ReadDelimitedMessagesFromFile", kStub};
    state_measure = "distinct (damaged file, outcome)";
    targets = {TG_CONVERT, TG_TRADER, TG_ENGINE};
    quick_runs = 24000;
    thorough_runs = 120000;
  }
  void Generate(Rng& r, Lines& out) override {
    const string type = r.PickOf({"p", "o", "o", "s"});
    out.push_back("o type " + type);
    string reader = type == "s" ? r.PickOf({"load", "trader"}) : type == "p" ? r.PickOf({"load", "convert"}) : r.PickOf({"load", "convert", "trader"});
    out.push_back("o reader " + reader);
    out.push_back(Fmt("o writer %s", r.PickOf({"real", "real", "own"})));
    out.push_back(Fmt("o level %d", r.PickOf({0, 1, 6, 9})));
    int n = r.Chance(1, 5) ? r.Range(400, 4000) : r.Chance(1, 15) ? 0 : r.Range(1, 50);
    const bool bulk = r.Chance(1, 800);
    // (No backtest of such a length: a long enough rally overflows the floats of the account.)
    if (bulk && reader != "trader") n = r.PickOf<int>({65535, 65536, 65537, (int)r.Range(20000, 70000)});
    out.push_back(Fmt("o n %d", n));
    out.push_back(Fmt("o seed %d", (int)r.Range(1, 1 << 30)));
    switch (r.Below(10)) {
      case 0: break;  // undamaged
      case 1: case 2: out.push_back(Fmt("m trunc %d", r.PickOf<int>({(int)r.Below(1000000), -1, -2, -8, -9, -18, -20, (int)-r.Below(30), (int)-r.Below(2000)}))); break;
      case 3: out.push_back(Fmt("m flip %d %d", (int)r.Below(1000000), (int)r.Below(8))); break;
      case 4: out.push_back(Fmt("m zero %d %d", (int)r.Below(1000000), r.PickOf({1, 4, 8, 512, 4096, 100000}))); break;
      case 5: out.push_back(Fmt("m replace %d", (int)r.PickOf<int>({0, 1, 2, 3, 4, 5, 6, 6, 7}))); break;
      case 6: case 7:
        out.push_back(Fmt("m overwrite %d %d %d", (int)r.Range(1, 1 << 30), r.PickOf({1, 1, 2, 50}), r.Chance(1, 8) ? 0 : (int)r.Range(1, 2500)));
        break;
      case 8: out.push_back(Fmt("m torn %d %d", (int)r.Below(10000), (int)r.PickOf<int>({0, 1, (int)r.Range(0, 8200)}))); break;
      case 9: out.push_back(Fmt("m lost %d %d", (int)r.Below(1000000), r.PickOf({1, 17, 512, 4096}))); break;
    }
    if (r.Chance(1, 4)) out.push_back(FaultLine("R", OP_READ, r.PickOf<int>({0, 9999, (int)r.Below(10000)}), FK_EIO, 0, ".pb"));
    if (r.Chance(1, 6)) out.push_back(FaultLine("R", OP_READ, r.Below(10000), r.PickOf({FK_EINTR, FK_SHORT}), r.Range(1, 100), ".pb"));
    if (r.Chance(1, 15)) out.push_back(FaultLine("R", OP_OPEN, 0, FK_OPENFAIL, 13, ".pb"));
    if (r.Chance(1, 20)) out.push_back(Fmt("env R alloc %d %d", (int)r.Range(0, 20), r.PickOf({1024, 8192, 30000, 60000})));
    if (!bulk && r.Chance(1, 3)) GenSoftEnv(r, "R", &out, true, 1);
  }
  template <class T>
  static vector<T> Make(Rng& r, int n);

  template <class T>
  Outcome RunT(const Lines& in, const Opts& o, const string& type) {
    Outcome out;
    const int n = o.I("n", 3);
    Rng r(o.I("seed", 1));
    vector<T> stored = Make<T>(r, n), second;
    string err;
    const int level = o.I("level", 6);
    const char* path = "/sim/h.pb";
    auto store = [&](const vector<T>& v, OpLog* log) {
      if (o.S("writer", "real") == "own" && !log) {
        DiskPut(path, Gzip(EncodeRaw(v), level));
        return true;
      }
      Reset();
      string sc = Fmt("o mode store\no path %s\no compress %d\n", path, level ? 1 : 0);
      for (const T& t : v) sc += Line(t) + "\n";
      SetScenario(sc);
      g_sh->cfg.record_ops = log != nullptr;
      Exec e = Do(TG_ENGINE);
      if (log) *log = SaveOpLog();
      return e.status == 0 && e.trace.find("STATUS 1") != string::npos;
    };
    // Own codec and the real writer must agree on what is stored.
    if (!store(stored, nullptr)) return out.Fail("undamaged-store-failed", "storing the history fails"), out;
    string bytes, why;
    DiskGet(path, &bytes);
    vector<T> chk;
    if (!DecodeFile(bytes, &chk, &why) || !Diff(chk, stored).empty())
      return out.Fail("undamaged-store-wrong", "the stored file does not hold the records: " + why + Diff(chk, stored)), out;
    const string orig = bytes;
    bool damaged = false, overwrite = false;
    OpLog wlog;
    int wseed = 0, wstep = 1;
    for (const string& s : in) {
      vector<string> w = Words(s);
      if (w.size() < 3 || w[0] != "m") continue;
      const long long a = atoll(w[2].c_str()), b = w.size() > 3 ? atoll(w[3].c_str()) : 0;
      const size_t sz = bytes.size();
      if (w[1] == "trunc") {
        size_t to = a < 0 ? (sz > (size_t)-a ? sz + a : 0) : a * sz / 1000000;
        bytes.resize(std::min(sz, to));
        g_tot.stat[ST_TRUNCATE]++;
      } else if (w[1] == "flip" && sz) {
        bytes[a * sz / 1000000] ^= 1 << (b & 7);
        g_tot.stat[ST_BITFLIP]++;
      } else if (w[1] == "zero" && sz) {
        size_t p = a * sz / 1000000;
        if (b >= 512) p = p / 512 * 512;
        for (size_t i = p; i < sz && i < p + b; ++i) bytes[i] = 0;
        g_tot.stat[ST_POWERLOSS]++;
      } else if (w[1] == "lost" && sz) {
        size_t p = a * sz / 1000000;
        bytes.erase(p, b);
        g_tot.stat[ST_POWERLOSS]++;
      } else if (w[1] == "replace") {
        string raw = EncodeRaw(stored);
        switch (a) {
          case 0: bytes = "1500000000,100.0,1.0\n1500000060,101.0,1.0\n"; break;
          case 1: bytes = string(3000, '\0'); break;
          case 2: bytes = raw.empty() ? "\x01" : raw; break;
          case 3: bytes = Gzip(raw.substr(0, raw.size() ? raw.size() - 1 : 0), 6); if (raw.empty()) bytes = "\x1f\x8b"; break;
          case 4: bytes = "\x1f\x8b\x08"; break;
          // Properly compressed records with something after (or inside of) them that is no record.
          case 6: bytes = Gzip(raw + string(1 + r.Below(40), (char)0xFF), 6); break;
          case 7: {
            string junk;
            for (int q = r.Range(1, 300); q > 0; --q) junk += (char)(0x80 | r.Below(128));
            bytes = Gzip(raw.substr(0, raw.size() / 2) + junk, r.PickOf({0, 6}));
            if (DecodeFile(bytes, &chk, &why)) bytes = Gzip(string(12, (char)0xFF), 6);  // it happened to be one
            break;
          }
          case 5: bytes = Gzip("this is not a history file at all, but a text", 6); break;
        }
      } else if (w[1] == "torn") {
        // The writer is killed in the middle of storing the same records.
        DiskRemove(path);
        Reset();
        string sc = Fmt("o mode store\no path %s\no compress %d\n", path, level ? 1 : 0);
        for (const T& t : stored) sc += Line(t) + "\n";
        SetScenario(sc);
        Exec e = Do(TG_ENGINE);
        OpCounts oc = CountOps();
        DiskRemove(path);
        Lines fl = {FaultLine("W", OP_WRITE, a, FK_CRASH, b, ".pb")};
        ApplyFaults(fl, "W", oc);
        Do(TG_ENGINE);
        bytes.clear();
        DiskGet(path, &bytes);
      } else if (w[1] == "overwrite") {
        // A writer replaces the file by another history while it is being read.
        const int n2 = w.size() > 4 ? atoi(w[4].c_str()) : 10;
        Rng r2(o.I("seed", 1) + 77);
        second = Make<T>(r2, n2);
        DiskPut(path, bytes);
        if (!store(second, &wlog)) return out.Fail("undamaged-store-failed", "storing the second history fails"), out;
        overwrite = true;
        wseed = a, wstep = std::max<int>(1, b);
      }
    }
    DiskPut(path, bytes);
    damaged = bytes != orig;
    string reader = o.S("reader", "load");
    if (reader == "trader" && type == "p") reader = "load";
    if (reader == "convert" && type == "s") reader = "load";
    // Baseline operation counts of the reader on the undamaged file.
    auto exec_reader = [&]() {
      if (reader == "load") {
        SetScenario(Fmt("o mode load\no path %s\no type %s\n", path, type == "p" ? "price" : type == "o" ? "ohlc" : "side"));
        return Do(TG_ENGINE);
      }
      if (reader == "convert") {
        ConvJob j;
        SetArgs({"convert", Fmt("--input_%s_history_delimited_proto_file=%s", type == "p" ? "price" : "ohlc", path),
                 Fmt("--output_%s_history_delimited_proto_file=/sim/c.out", type == "p" ? "price" : "ohlc"),
                 "--start_time=1970-01-01", "--end_time=1970-01-01"});
        return Do(TG_CONVERT);
      }
      if (type == "o") {
        SetArgs({"trader", Fmt("--input_ohlc_history_delimited_proto_file=%s", path), "--trader=rebalancing",
                 "--output_exchange_log_file=/sim/x.csv", "--end_time=2040-01-01", "--start_time=2010-01-01"});
      } else {
        SetArgs({"trader", "--input_ohlc_history_delimited_proto_file=/sim/t.hist",
                 Fmt("--input_side_history_delimited_proto_file=%s", path), "--trader=rebalancing",
                 "--output_exchange_log_file=/sim/x.csv", "--end_time=2040-01-01", "--start_time=2010-01-01"});
      }
      return Do(TG_TRADER);
    };
    if (type == "s") {
      vector<Ohlc> t;
      for (int i = 0; i < 5; ++i) t.push_back({1600000000 + i * 300, 100, 101, 99, 100, 1});
      DiskPut("/sim/t.hist", Gzip(EncodeRaw(t), 6));
    }
    DiskImage img = SaveDisk();
    DiskPut(path, orig);
    Reset();
    Exec e0 = exec_reader();
    OpCounts base = CountOps();
    if (e0.status != 0)
      return out.Fail("undamaged-fails", Fmt("loading the undamaged file fails: status %d %.200s", e0.status, e0.err.c_str())), out;
    // The reader under test.
    LoadDisk(img);
    Reset();
    ApplyFaults(in, "R", base);
    ApplyEnv(in, "R");
    if (overwrite) {
      ExecCfg& c = g_sh->cfg;
      LoadWriterLog(wlog);
      c.writer_active = 1;
      c.writer_nops = wlog.ops.size();
      c.writer_seed = wseed;
      c.writer_step_max = wstep;
    }
    Exec e1 = exec_reader();
    const bool eio = FiredHard(".pb") > 0;
    const bool alloc = g_sh->res.stat[ST_ALLOC_FAIL] > 0;
    const uint64_t wsteps = g_sh->res.stat[ST_CONCURRENT_WRITE_STEP];
    g_sh->cfg.writer_active = 0;
    out.trivial = !damaged && !eio && !wsteps;
    bool ok = e1.status == 0;
    if (reader == "load") ok = ok && e1.trace.find("STATUS 1") != string::npos;
    State(HashBytes(HashBytes(1, bytes.data(), bytes.size()), &e1.status, 4));
    // Which sequences may be delivered.
    vector<vector<T>> allow = {stored};
    if (overwrite) allow.push_back(second), allow.push_back({});
    if (bytes.empty()) allow.push_back({});  // a file of length zero is an intact empty history
    // A damaged file may still be a perfectly valid history of the same records (for example
    // a flipped bit in the unused part of the header).
    if (!ok) {
      if (e1.Broken() && !alloc)
        return out.Fail("crash", Fmt("the program %s instead of reporting an error: status %d %.200s", e1.Hung() ? "hangs" : "crashes", e1.status, e1.err.c_str())), out;
      if (damaged || eio || alloc || wsteps) {
        Probe(eio ? "read error was reported" : damaged ? "damage was reported" : wsteps ? "racing load was refused" : "allocation failure was reported");
        return out;
      }
      return out.Fail("intact-refused", Fmt("an intact file is refused: status %d %.200s", e1.status, e1.err.c_str())), out;
    }
    if (eio) return out.Fail("read-error-ignored", "the load succeeds although reading the file failed with an I/O error"), out;
    // What was delivered?
    if (reader == "trader" && type == "s") {
      if (damaged || overwrite) {
        // Only whether it was accepted can be seen.
        string w2;
        vector<T> v;
        if (damaged && !overwrite && !bytes.empty() && (!DecodeFile(bytes, &v, &w2) || !Diff(v, stored).empty()))
          return out.Fail("damage-accepted", "the backtester accepts a damaged side history: " + w2), out;
      }
      return out;
    }
    vector<T> got;
    if (reader == "load") {
      got = Parse<T>(e1.trace);
    } else if (reader == "convert") {
      string f, w2;
      if (DiskGet("/sim/c.out", &f) && !f.empty() && !DecodeFile(f, &got, &w2)) got.clear();
    } else {
      // One row of the exchange log per tick: compare times and count.
      string f;
      DiskGet("/sim/x.csv", &f);
      string d = "none";
      for (auto& al : allow) {
        vector<int64_t> ts;
        for (const string& l : SplitLines(f))
          if (l.size() > 4 && l.compare(l.size() - 4, 4, ",,,,") == 0) ts.push_back(atoll(l.c_str()));
        bool same = ts.size() == al.size();
        for (size_t i = 0; same && i < ts.size(); ++i) same = ts[i] == Ts(al[i]);
        if (same) d = "";
        else if (d == "none") d = Fmt("the backtest ran over %zu ticks, %zu were stored", ts.size(), al.size());
      }
      if (!d.empty()) return out.Fail("damage-accepted", "the load succeeds, but " + d), out;
      if (damaged) Probe("harmless damage");
      return out;
    }
    string d = "none";
    for (auto& al : allow) {
      string x = Diff(got, al);
      if (x.empty()) {
        d = "";
        break;
      }
      if (d == "none") d = x;
    }
    if (!d.empty()) return out.Fail("damage-accepted", "the load succeeds, but delivers " + d), out;
    if (damaged) Probe("harmless damage");
    if (wsteps) Probe("racing load delivered a complete history");
    return out;
  }
  static int64_t Ts(const Price& p) { return p.ts; }
  static int64_t Ts(const Ohlc& p) { return p.ts; }
  static int64_t Ts(const Side& p) { return p.ts; }
  static string Sp(string s, char c) {
    std::replace(s.begin(), s.end(), ',', ' ');
    return string(1, c) + " " + s;
  }
  static string Line(const Price& t) { return Sp(Row(t), 'p'); }
  static string Line(const Ohlc& t) { return Sp(Row(t), 'k'); }
  static string Line(const Side& t) { return Sp(Row(t), 'i'); }
  template <class T>
  static vector<T> Parse(const string& trace);
  Outcome Run(const Lines& in) override {
    Opts o(in);
    const string type = o.S("type", "p");
    if (type == "p") return RunT<Price>(in, o, type);
    if (type == "o") return RunT<Ohlc>(in, o, type);
    return RunT<Side>(in, o, type);
  }
};
template <>
vector<Price> C02::Make<Price>(Rng& r, int n) {
  FeedCfg f = FeedCfg::Random(r);
  f.n = n;
  return GenTrades(r, f);
}
template <>
vector<Ohlc> C02::Make<Ohlc>(Rng& r, int n) {
  return RandomOhlc(r, n);
}
template <>
vector<Side> C02::Make<Side>(Rng& r, int n) {
  return RandomSide(r, std::min(n, 600), 1500000000);
}
template <>
vector<Price> C02::Parse<Price>(const string& tr) {
  vector<Price> v;
  for (const string& s : SplitLines(tr)) {
    vector<string> w = Words(s);
    if (w.size() == 4 && w[0] == "p") v.push_back({atoll(w[1].c_str()), strtof(w[2].c_str(), 0), strtof(w[3].c_str(), 0)});
  }
  return v;
}
template <>
vector<Ohlc> C02::Parse<Ohlc>(const string& tr) {
  vector<Ohlc> v;
  for (const string& s : SplitLines(tr)) {
    vector<string> w = Words(s);
    if (w.size() == 7 && w[0] == "k")
      v.push_back({atoll(w[1].c_str()), strtof(w[2].c_str(), 0), strtof(w[3].c_str(), 0), strtof(w[4].c_str(), 0),
                   strtof(w[5].c_str(), 0), strtof(w[6].c_str(), 0)});
  }
  return v;
}
template <>
vector<Side> C02::Parse<Side>(const string& tr) {
  vector<Side> v;
  for (const string& s : SplitLines(tr)) {
    vector<string> w = Words(s);
    if (w.size() >= 2 && w[0] == "i") {
      Side x;
      x.ts = atoll(w[1].c_str());
      for (size_t i = 2; i < w.size(); ++i) x.s.push_back(strtof(w[i].c_str(), 0));
      v.push_back(x);
    }
  }
  return v;
}
static Register r02(new C02);

// ================================================================ C03
// Rows: "w W <text>" well-formed fields, "w T <text>" unreadable time, "w F <text>" readable
// time but a missing or non-numeric field, "w B <text>" blank.
class C03 : public Check {
 public:
  C03() {
    id = "C03";
    rule = "a CSV file of one of the three kinds (0..2500, rarely 33000 rows, values and times of all shapes, garbled rows anywhere, period "
           "bounds on and between rows, CRLF, missing last newline) is imported undisturbed and again with chunked, interrupted "
           "or failing reads; non-trivial: a garbled or out-of-period row exists or the reads were disturbed";
    components = {kReal, kStub};
    state_measure = "distinct (input file, period, outcome)";
    targets = {TG_CONVERT};
    quick_runs = 50000;
    thorough_runs = 300000;
  }
  static string Num(Rng& r, double x) {
    switch (r.Chance(1, 30) ? 10 + r.Below(3) : r.Below(8)) {
      case 10: return Fmt("%.40f", x);
      case 11: return Fmt("%.150f", x);
      case 12: return (x < 0 ? "-000" : "000") + Fmt("%.7f", fabs(x));
      case 0: return Fmt("%.2f", x);
      case 1: return Fmt("%.8f", x);
      case 2: return Fmt("%e", x);
      case 3: return Fmt(" %.7g", x);
      case 4: return Fmt("%g", x);
      default: return Fmt("%.9g", x);
    }
  }
  static string BadNum(Rng& r) { return r.PickOf({"abc", "", "n/a", "-", "--5", "x1", "#", "price", ",", "null"}); }
  void Generate(Rng& r, Lines& out) override {
    const char kind = r.PickOf({'p', 'p', 'o', 's'});
    out.push_back(Fmt("o kind %cc", kind));
    out.push_back(Fmt("o out %c", kind));
    if (r.Chance(1, 5)) out.push_back("o eol crlf");
    if (r.Chance(1, 4)) out.push_back("o noeol 1");
    const int n = r.Chance(1, 250) ? Mass(r) : r.Chance(1, 8) ? r.Range(200, 2500) : r.Chance(1, 15) ? 0 : r.Range(1, 25);
    int64_t ts = r.PickOf<int64_t>({1500000000, 1500000000, 1483228790, 1609459100, 1, 2147483600, 4294967290, 1577836800});
    const int step = r.PickOf({1, 1, 10, 60, n > 2500 ? 300 : 86400, n > 2500 ? 300 : 2000000});
    const int garble = n > 2500 ? r.PickOf({0, 0, 1}) : r.PickOf({0, 1, 1, 1, 1, 2, 3});
    std::set<int> gs;
    for (int i = 0; i < garble && n; ++i) gs.insert(r.Range(0, n - 1));
    vector<int64_t> times;
    const int nsig = n > 2500 ? r.Range(1, 3) : r.PickOf({1, 1, 2, 3, 10, n < 30 ? 900 : 5, n < 6 ? 4500 : 2});
    const bool header = r.Chance(1, 12);
    const int dups = r.PickOf({0, 0, 1, 5});
    vector<string> prevf;
    int64_t prevts = 0;
    if (header) out.push_back(string("w T ") + r.PickOf({"timestamp,price,volume", "time,a,b,c,d,e", "# comment"}));
    for (int i = 0; i < n; ++i) {
      if (kind == 's' || !r.Chance(1, 5)) ts += r.Range(1, step);
      vector<string> f;
      double x = exp((r.Unit() - 0.5) * r.PickOf({1, 10, 40})) * 100;
      float o = x * (1 + 0.01 * r.Unit()), h = x * 1.02, l = x * 0.99, c = x * (1 + 0.015 * r.Unit()), v = r.Chance(1, 6) ? 0 : r.Unit() * 100;
      if (kind == 'p') f = {Num(r, x), Num(r, v)};
      if (kind == 'p' && x < 0.006 && (n > 100 || r.Chance(3, 4))) f[0] = Fmt("%.9g", x);  // (not rounded to zero)
      if (kind == 'o') {
        // Fixed notation keeps the order of the four prices.
        const char* fm = r.PickOf({"%.9g", "%.9e"});
        if (r.Chance(1, 6)) h = o = c = l;
        for (float y : {o, h, l, c}) f.push_back(Fmt(fm, y));
        f.push_back(Num(r, v));
      }
      if (kind == 's')
        for (int k = 0; k < nsig; ++k) f.push_back(Num(r, (r.Unit() - 0.5) * r.PickOf({1.0, 1e6, 0.0, 1e-12})));
      // Trades at the same time, price or volume as the one before are records of their own.
      if (i && dups && r.Chance(dups, 10)) {
        const vector<string>& q = prevf;
        if (kind != 's' && r.Chance(1, 2)) ts = prevts;
        if (r.Chance(1, 3)) f = q;
        else if (kind == 's') f[r.Below(f.size())] = q[r.Below(q.size())];
        else if (r.Chance(1, 2)) for (size_t y = 0; y + 1 < f.size(); ++y) f[y] = q[y];
        else f.back() = q.back();
      }
      prevf = f, prevts = ts;
      int64_t t = ts;
      string tag = "W", text;
      const string tt = (r.Chance(1, 12) ? " " : "") + std::to_string(t);
      if (gs.count(i)) {
        const int nf = f.size(), k = r.Below(nf);
        int what = r.Below(kind == 's' ? 11 : 14);
        if (kind != 's' && r.Chance(1, 3)) what = r.Range(8, 11);
        switch (kind == 's' && what >= 9 ? what + 3 : what) {
          case 12:  // a time that is no whole number of seconds
            tag = "T";
            text = tt + r.PickOf({".5", ".0", ".000", ".25", "x", ":00", "e1", "_", "\x02"});
            for (auto& y : f) text += "," + y;
            break;
          case 13: {  // text after a number; also what a zeroed sector leaves of rows ("\x02" stands for a zero byte)
            tag = "F";
            f[k] += r.PickOf({"abc", "x", ";7", ".1.2", "\x02", "\x02\x02\x02\x02,5,6,7", "#", "-3", "\x02\x02\x02.5"});
            text = tt;
            for (auto& y : f) text += "," + y;
            break;
          }
          case 0: tag = "T"; text = r.PickOf({"abc", kind == 's' ? "t" : "", "x15", "-", "time", "99999999999999999999", "-99999999999999999999", "18446744075209551700", "9223372036854775808"}); for (auto& y : f) text += "," + y; break;
          case 1: {  // a field is missing
            if (kind == 's' && nsig == 1) { tag = "F"; text = tt + (r.Chance(1, 2) ? "," : ""); break; }
            tag = kind == 's' ? "W" : "F";
            f.pop_back();
            if (kind != 's' && r.Chance(1, 4)) f.clear();
            text = tt;
            for (auto& y : f) text += "," + y;
            break;
          }
          case 2:  // text instead of a number
            tag = "F";
            f[k] = BadNum(r);
            if (kind == 's' && (f[k].empty() || f[k] == ",")) f[k] = "abc";
            if (f[k] == "," ) f[k] = "";
            text = tt;
            for (auto& y : f) text += "," + y;
            break;
          case 3: tag = "B"; text = r.PickOf({"", " "}); break;
          case 4: t = ts - r.Range(1, r.PickOf({1, 100, 3000000})); break;  // time goes back
          case 5:
            if (kind == 's') { tag = "W"; f.push_back("0.5"); break; }  // too many signals
            tag = "F";
            text = tt + ";";
            for (auto& y : f) text += y + ";";
            break;
          case 6: t = r.PickOf<int64_t>({0, -1, ts, ts + 1000000000}); break;
          case 7: tag = "T"; text = r.PickOf({"garbage", "\xff\xfe\x01", ",,,", "nan,1,1", ";;"}); break;
          case 8:
            if (kind == 's') {  // no float at all
              tag = "F";
              f[k] = r.PickOf({"1e39", "-1e39", "3.5e38", "1e50", "-1e400", "1e999"});
              text = tt;
              for (auto& y : f) text += "," + y;
              break;
            }
            f[k] = r.PickOf({"nan", "nan", "inf", "-inf", "1e50", "infinity", "-nan", "NAN", "-INF"});
            if (r.Chance(1, 8)) for (auto& y : f) if (r.Chance(1, 2)) y = f[k];
            break;
          case 9:
            f[k] = r.PickOf({"0", "-1", "-0.5", "1e-60", "-1e-3", "-0"});
            if (r.Chance(1, 8)) for (auto& y : f) if (r.Chance(1, 2)) y = f[k];
            break;
          case 10: if (kind == 'o') std::swap(f[1], f[2]); else f[0] = "0"; break;
          case 11: if (kind == 'o') f[k] = Num(r, x * r.PickOf({1.5, 0.5, 0.989})); else f[1] = "-1"; break;
        }
      }
      if (tag == "W") {
        text = (r.Chance(1, 12) ? " " : "") + std::to_string(t);
        for (auto& y : f) text += "," + y;
      }
      times.push_back(ts);
      out.push_back("w " + tag + " " + text);
    }
    auto bound = [&]() -> string {
      int64_t t = times.empty() ? 1500000000 : r.Pick(times);
      t += r.PickOf({0, 0, 0, 1, -1, 1000});
      return TimeText(std::max<int64_t>(t, 0));
    };
    switch (r.Below(6)) {
      case 0: break;
      case 1: out.push_back("o start " + bound()); break;
      case 2: out.push_back("o end " + bound()); break;
      case 3: out.push_back("o start " + Epoch(r)); out.push_back("o end " + Epoch(r)); break;
      case 4: out.push_back("o start " + Epoch(r)); out.push_back("o end " + bound()); break;
      case 5: out.push_back("o start " + bound()); out.push_back("o end 2200-01-01"); break;
    }
    switch (r.Below(8)) {
      case 0: case 1: out.push_back(FaultLine("R", OP_READ, r.PickOf<int>({0, 9999, 9998, (int)r.Below(10000)}), FK_EIO, 0, ".csv")); break;
      case 2: for (int i = 0; i < 3; ++i) out.push_back(FaultLine("R", OP_READ, r.Below(10000), r.PickOf({FK_EINTR, FK_SHORT}), r.Range(1, 100), ".csv")); break;
      case 3: if (r.Chance(1, 4)) out.push_back(FaultLine("R", OP_OPEN, 0, FK_OPENFAIL, r.PickOf({2, 13, 24}), ".csv")); break;
      case 4: if (r.Chance(1, 2)) out.push_back(Fmt("env R alloc %d %d", (int)r.Range(0, 60), r.PickOf({64, 512, 1024, 8192}))); break;
      default: break;
    }
    if (r.Chance(1, 2)) GenSoftEnv(r, "R", &out, true, 1);
  }
  static bool Fields(const string& text, int64_t* ts, vector<float>* v) {
    vector<string> f = Split(text, ',');
    *ts = strtoll(f[0].c_str(), nullptr, 10);
    v->clear();
    for (size_t i = 1; i < f.size(); ++i) v->push_back(strtof(f[i].c_str(), nullptr));
    return true;
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    ConvJob j = ConvJob::From(o);
    const char kind = j.kind[0];
    if (j.kind[1] != 'c') j.kind[1] = 'c';
    j.out_p = kind == 'p', j.out_o = kind == 'o', j.out_s = kind == 's';
    int64_t a = 1483228800, b = 1609459200;
    if (!j.start.empty()) ParseTimeArg(j.start, &a);
    if (!j.end.empty()) ParseTimeArg(j.end, &b);
    const string eol = o.S("eol") == "crlf" ? "\r\n" : "\n";
    string csv;
    bool must_fail = false, may_fail = false, stopped = false, odd = false;
    string why;
    Expect e;
    int64_t prev = 0;
    size_t nsig = 0;
    size_t total = 0, k = 0;
    for (const string& s : in) total += s.compare(0, 2, "w ") == 0;
    for (const string& s : in) {
      if (s.compare(0, 2, "w ") != 0 || s.size() < 4) continue;
      ++k;
      const char tag = s[2];
      const string text = s.size() > 4 ? s.substr(4) : "";
      for (char ch : text) csv += ch == 2 ? '\0' : ch;
      if (k < total || !o.I("noeol")) csv += eol;
      if (stopped || must_fail) continue;
      auto bad = [&](const char* w) {
        must_fail = true;
        why = Fmt("row %zu (%.60s): %s", k, text.c_str(), w);
      };
      if (tag == 'T') {
        bad("unreadable time");
        continue;
      }
      if (tag == 'B') {
        may_fail = odd = true;
        continue;
      }
      int64_t ts;
      vector<float> v;
      Fields(text, &ts, &v);
      if (tag == 'F') odd = true;
      if (a > 0 && ts < a) {
        odd = true;
        if (tag == 'F') may_fail = true;
        continue;
      }
      if (b > 0 && ts >= b) {
        odd = true;
        if (tag == 'F') may_fail = true;
        stopped = true;
        continue;
      }
      if (tag == 'F') {
        bad("missing or non-numeric field");
        continue;
      }
      if (ts <= 0 || (kind == 's' ? ts <= prev : ts < prev)) {
        bad("time is not positive or goes back");
        continue;
      }
      bool finite = true;
      for (float x : v) finite = finite && std::isfinite(x);
      if (kind == 'p') {
        if (v.size() != 2) return out.trivial = true, out;  // the minimiser cut an option
        if (!finite || !(v[0] > 0) || !(v[1] >= 0)) {
          bad("price or volume");
          continue;
        }
        e.p.push_back({ts, v[0], v[1]});
      } else if (kind == 'o') {
        if (v.size() != 5) return out.trivial = true, out;
        const float hi = std::max({v[0], v[2], v[3]}), lo = std::min({v[0], v[1], v[3]});
        if (!finite || !(v[0] > 0 && v[1] > 0 && v[2] > 0 && v[3] > 0) || v[1] < hi || v[2] > lo || !(v[4] >= 0)) {
          bad("prices or volume");
          continue;
        }
        e.o.push_back({ts, v[0], v[1], v[2], v[3], v[4]});
      } else {
        if (!nsig) nsig = v.size();
        if (v.empty() || v.size() != nsig) {
          bad("number of signals");
          continue;
        }
        Side x;
        x.ts = ts;
        x.s = v;
        e.s.push_back(x);
      }
      prev = ts;
    }
    DiskPut("/sim/in.csv", csv);
    const DiskImage disk0 = SaveDisk();
    auto judge = [&](const Exec& x, const char* when, bool hard, bool alloc) {
      if (x.status == 0) {
        if (must_fail) return out.Fail("garbled-accepted", Fmt("%s: the import succeeds although %s", when, why.c_str()));
        if (hard) return out.Fail("read-error-ignored", Fmt("%s: the import succeeds although reading the file failed", when));
        string d = CheckOutputs(j, e);
        if (!d.empty()) return out.Fail("wrong-records", Fmt("%s: the import succeeds, but %s", when, d.c_str()));
        // Nothing selected: nothing may be stored.
        for (const char* p : {kOutP, kOutO, kOutS}) {
          string by;
          if (e.p.empty() && e.o.empty() && e.s.empty() && DiskGet(p, &by)) {
            string raw, w2;
            if (!Gunzip(by, &raw, &w2) || !raw.empty())
              return out.Fail("wrong-records", Fmt("%s: records are stored although no row was selected", when));
          }
        }
        if (hard || alloc) Probe("success although an allocation failed");
        return true;
      }
      if (x.Broken() && !alloc)
        return out.Fail("crash", Fmt("%s: the program %s instead of reporting an error: status %d %.200s", when, x.Hung() ? "hangs" : "crashes", x.status, x.err.c_str()));
      if (must_fail || may_fail) {
        Probe("garbled file refused");
        return true;
      }
      if (hard) {
        Probe("read error reported");
        return true;
      }
      if (alloc) return true;
      return out.Fail("intact-refused", Fmt("%s: status %d for a well-formed file: %.200s", when, x.status, x.err.c_str()));
    };
    SetArgs(j.Args());
    Exec e0 = Do(TG_CONVERT);
    State(HashBytes(g_run.hash, csv.data(), csv.size()));
    if (!judge(e0, "undisturbed", false, false)) return out;
    const OpCounts base = CountOps();
    LoadDisk(disk0);
    Reset();
    SetArgs(j.Args());
    ApplyFaults(in, "R", base);
    ApplyEnv(in, "R");
    Exec e1 = Do(TG_CONVERT);
    const bool hard = FiredHard(".csv") > 0;
    const bool alloc = g_sh->res.stat[ST_ALLOC_FAIL] > 0;
    uint64_t any = 0;
    for (int i = 0; i < ST_NSTAT; ++i) any += i == ST_RANDOM ? 0 : g_sh->res.stat[i];
    out.trivial = !any && !must_fail && !odd;
    if (!judge(e1, "disturbed", hard, alloc)) return out;
    if (!hard && !alloc && e0.status != e1.status)
      return out.Fail("depends-on-chunking", Fmt("status %d undisturbed, %d with split reads", e0.status, e1.status)), out;
    return out;
  }
};
static Register r03(new C03);
}  // namespace sim
