#include "conv.h"

namespace sim {

vector<string> ConvJob::Args() const {
  vector<string> a = {"convert"};
  static const std::map<string, string> flag = {{"pc", "input_price_history_csv_file"},
                                                {"pp", "input_price_history_delimited_proto_file"},
                                                {"oc", "input_ohlc_history_csv_file"},
                                                {"op", "input_ohlc_history_delimited_proto_file"},
                                                {"sc", "input_side_history_csv_file"}};
  a.push_back("--" + flag.at(kind) + "=" + InPath());
  if (out_p) a.push_back(string("--output_price_history_delimited_proto_file=") + kOutP);
  if (out_o) a.push_back(string("--output_ohlc_history_delimited_proto_file=") + kOutO);
  if (out_s) a.push_back(string("--output_side_history_delimited_proto_file=") + kOutS);
  if (!start.empty()) a.push_back("--start_time=" + start);
  if (!end.empty()) a.push_back("--end_time=" + end);
  if (compress >= 0) a.push_back(compress ? "--compress=true" : "--compress=false");
  if (rate != 300) a.push_back("--sampling_rate_sec=" + std::to_string(rate));
  if (dev != 0.05) a.push_back(Fmt("--max_price_deviation_per_min=%.9g", dev));
  if (gaps >= 0) a.push_back("--top_n_gaps=" + std::to_string(gaps));
  if (outliers >= 0) a.push_back("--last_n_outliers=" + std::to_string(outliers));
  return a;
}

ConvJob ConvJob::From(const Opts& o) {
  ConvJob j;
  j.kind = o.S("kind", "pc");
  if (j.kind.size() != 2) j.kind = "pc";
  string out = o.S("out", j.kind[0] == 's' ? "s" : j.kind[0] == 'o' ? "o" : "p");
  j.out_p = out.find('p') != string::npos;
  j.out_o = out.find('o') != string::npos;
  j.out_s = out.find('s') != string::npos;
  j.start = o.S("start");
  j.end = o.S("end");
  j.compress = o.I("compress", -1);
  j.rate = o.I("rate", 300);
  j.dev = o.D("dev", 0.05);
  j.gaps = o.I("gaps", -1);
  j.outliers = o.I("outliers", -1);
  return j;
}

bool ParseTimeArg(const string& s, int64_t* t) {
  int y, m, d, H = 0, M = 0, S = 0;
  int k = sscanf(s.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &d, &H, &M, &S);
  if (k != 3 && k != 6) return false;
  *t = DaysFromCivil(y, m, d) * 86400 + H * 3600 + M * 60 + S;
  return true;
}

// "bulk <kind> <rows> <seed>": that many generated rows.
static void Bulk(const vector<string>& w, vector<string>* v) {
  if (w.size() < 4) return;
  const int n = std::min(atoi(w[2].c_str()), 140000);
  Rng r(strtoull(w[3].c_str(), nullptr, 10));
  if (w[1] == "p") {
    FeedCfg f;
    f.n = n;
    f.dt_max = 40;
    f.p_gap = 0;
    for (auto& t : GenTrades(r, f)) v->push_back(Row(t));
  } else if (w[1] == "o") {
    TickCfg c;
    c.n = std::min(n, 75000);
    c.period = 60;
    c.p_missing = 0;
    for (auto& t : GenTicks(r, c)) v->push_back(Row(t));
  } else {
    int64_t ts = 1500000000;
    for (int i = 0; i < n; ++i) {
      Side s;
      s.ts = ts += r.Range(1, 100);
      s.s.push_back((float)(r.Unit() - 0.5));
      v->push_back(Row(s));
    }
  }
}
static vector<string> Texts(const Lines& in) {
  vector<string> v;
  for (const string& s : in)
    if (s.compare(0, 2, "r ") == 0)
      v.push_back(s.substr(2));
    else if (s.compare(0, 5, "bulk ") == 0)
      Bulk(Words(s), &v);
  return v;
}
vector<Price> PriceRows(const Lines& in) {
  vector<Price> v;
  for (const string& s : Texts(in)) {
    vector<string> f = Split(s, ',');
    if (f.size() < 3) continue;
    v.push_back({strtoll(f[0].c_str(), nullptr, 10), strtof(f[1].c_str(), nullptr), strtof(f[2].c_str(), nullptr)});
  }
  return v;
}
vector<Ohlc> OhlcRows(const Lines& in) {
  vector<Ohlc> v;
  for (const string& s : Texts(in)) {
    vector<string> f = Split(s, ',');
    if (f.size() < 6) continue;
    auto x = [&](int i) { return strtof(f[i].c_str(), nullptr); };
    v.push_back({strtoll(f[0].c_str(), nullptr, 10), x(1), x(2), x(3), x(4), x(5)});
  }
  return v;
}
vector<Side> SideRows(const Lines& in) {
  vector<Side> v;
  for (const string& s : Texts(in)) {
    vector<string> f = Split(s, ',');
    if (f.size() < 2) continue;
    Side r;
    r.ts = strtoll(f[0].c_str(), nullptr, 10);
    for (size_t i = 1; i < f.size(); ++i) r.s.push_back(strtof(f[i].c_str(), nullptr));
    v.push_back(r);
  }
  return v;
}
string Row(const Price& p) { return Fmt("%lld,%.9g,%.9g", (long long)p.ts, p.p, p.v); }
string Row(const Ohlc& p) {
  return Fmt("%lld,%.9g,%.9g,%.9g,%.9g,%.9g", (long long)p.ts, p.o, p.h, p.l, p.c, p.v);
}
string Row(const Side& p) {
  string s = std::to_string(p.ts);
  for (float f : p.s) s += "," + Fl(f);
  return s;
}

void SetInput(const ConvJob& j, const Lines& in, const Opts& o, Expect* e) {
  int64_t a = 1483228800, b = 1609459200;
  if (!j.start.empty()) ParseTimeArg(j.start, &a);
  if (!j.end.empty()) ParseTimeArg(j.end, &b);
  string csv;
  for (const string& s : Texts(in)) csv += s + "\n";
  const int level = o.I("level", 6);
  if (j.kind[0] == 'p') {
    vector<Price> v = PriceRows(in);
    DiskPut(j.InPath(), j.kind[1] == 'c' ? csv : Gzip(EncodeRaw(v), level));
    e->p = InPeriod(v, a, b);
    if (j.out_o && !e->p.empty()) e->clean_known = ModelOutliers(e->p, j.dev, &e->clean, &e->removed);
  } else if (j.kind[0] == 'o') {
    vector<Ohlc> v = OhlcRows(in);
    DiskPut(j.InPath(), j.kind[1] == 'c' ? csv : Gzip(EncodeRaw(v), level));
    e->o = InPeriod(v, a, b);
  } else {
    vector<Side> v = SideRows(in);
    DiskPut(j.InPath(), csv);
    e->s = InPeriod(v, a, b);
  }
}

template <class T>
static string LoadOut(const char* path, vector<T>* v) {
  string bytes, why;
  if (!DiskGet(path, &bytes)) return string(path) + " does not exist";
  if (!DecodeFile(bytes, v, &why)) return string(path) + ": " + why;
  return "";
}

string CheckOutputs(const ConvJob& j, const Expect& e) {
  string d;
  if (j.out_p && !e.p.empty()) {
    vector<Price> v;
    if (!(d = LoadOut(kOutP, &v)).empty()) return d;
    if (!(d = Diff(v, e.p)).empty()) return string(kOutP) + ": " + d;
  }
  if (j.out_o && !e.o.empty()) {
    vector<Ohlc> v;
    if (!(d = LoadOut(kOutO, &v)).empty()) return d;
    if (!(d = Diff(v, e.o)).empty()) return string(kOutO) + ": " + d;
  }
  if (j.out_o && !e.p.empty()) {
    vector<Ohlc> v;
    if (!(d = LoadOut(kOutO, &v)).empty()) return d;
    if (e.clean_known && !(d = CompareOhlc(v, e.clean, j.rate)).empty()) return string(kOutO) + ": " + d;
  }
  if (j.out_s && !e.s.empty()) {
    vector<Side> v;
    if (!(d = LoadOut(kOutS, &v)).empty()) return d;
    if (!(d = Diff(v, e.s)).empty()) return string(kOutS) + ": " + d;
  }
  return "";
}

int FiredHard(const char* suffix, bool near) {
  int n = 0;
  const ExecCfg& c = g_sh->cfg;
  for (int i = 0; i < c.nfaults; ++i) {
    const Fault& f = c.faults[i];
    if (!f.fired) continue;
    if (f.kind == FK_EIO || f.kind == FK_OPENFAIL || f.kind == FK_CLOSEFAIL || f.kind == FK_RENAMEFAIL) {
      if (f.near != near) continue;
      string s = f.file;
      if (s.find(suffix) != string::npos) ++n;
    }
  }
  if (g_sh->res.stat[ST_ENOSPC]) ++n;
  return n;
}

vector<Ohlc> RandomOhlc(Rng& r, int n) {
  TickCfg c;
  c.start = 1500000000 + r.Range(0, 100000);
  c.n = n;
  c.period = r.PickOf({60, 300, 3600});
  c.p_zero = r.PickOf({0, 10});
  return GenTicks(r, c);
}
vector<Side> RandomSide(Rng& r, int n, int64_t start) {
  vector<Side> v;
  int k = r.PickOf({1, 1, 2, 3, 7, 40});
  if (r.Chance(1, 40)) k = r.PickOf({300, 1100, 4200}), n = std::min(n, 6);
  int64_t ts = start;
  for (int i = 0; i < n; ++i) {
    Side s;
    ts += r.Range(1, r.PickOf({1, 300, 5000}));
    s.ts = ts;
    for (int q = 0; q < k; ++q) s.s.push_back((float)((r.Unit() - 0.5) * r.PickOf({1.0, 1000.0, 1e-6, 0.0})));
    v.push_back(s);
  }
  return v;
}

// The environment of runs without files: memory contents, time zone, clock, processors.
void GenMemEnv(Rng& r, const string& p, Lines* out) {
  if (r.Chance(1, 4)) out->push_back(Fmt("env %s fill %d", p.c_str(), r.PickOf({0, 0xFF, 0xAA, 1})));
  if (r.Chance(1, 6)) out->push_back(Fmt("env %s tz %s", p.c_str(), r.PickOf({"America/New_York", "Asia/Kolkata", "XYZ-13:45", "Pacific/Apia"})));
  if (r.Chance(1, 8)) out->push_back(Fmt("env %s clock %lld", p.c_str(), (long long)r.PickOf<int64_t>({0, 951782399, 4102444800LL})));
  if (r.Chance(1, 8)) out->push_back(Fmt("env %s cpus %d", p.c_str(), r.PickOf({1, 2, 64})));
}

void GenSoftEnv(Rng& r, const string& p, Lines* out, bool writes, int intr) {
  if (r.Chance(1, 2)) out->push_back(Fmt("env %s rchunk %d %d%s", p.c_str(), (int)r.Range(1, 1 << 30), r.PickOf({1, 7, 100, 5000, 0}), intr & 1 ? " intr" : ""));
  if (writes && r.Chance(1, 2))
    out->push_back(Fmt("env %s wchunk %d %d%s", p.c_str(), (int)r.Range(1, 1 << 30), r.PickOf({1, 7, 100, 5000, 0}), intr & 2 ? " intr" : ""));
  if (r.Chance(1, 3)) out->push_back(Fmt("env %s clockseed %d", p.c_str(), (int)r.Range(1, 1 << 30)));
  if (r.Chance(1, 3)) out->push_back(Fmt("env %s clock %lld", p.c_str(), (long long)r.PickOf<int64_t>({0, 1, 951782399, 1700000000, 2147483648LL, 4102444800LL})));
  if (r.Chance(1, 3))
    out->push_back(Fmt("env %s tz %s", p.c_str(), r.PickOf({"UTC", "America/New_York", "Asia/Kolkata", "EST5EDT", "XYZ-13:45", "Pacific/Apia"})));
  if (r.Chance(1, 3)) out->push_back(Fmt("env %s fill %d", p.c_str(), r.PickOf({0, 0x55, 0xAA, 0xFF, 0x7F})));
  if (r.Chance(1, 4)) out->push_back(Fmt("env %s cpus %d", p.c_str(), r.PickOf({1, 2, 8, 64})));
}

}  // namespace sim
