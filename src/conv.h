// Runs of the conversion program.
#pragma once
#include "model.h"

namespace sim {

struct ConvJob {
  string kind = "pc";  // pc, pp: price CSV / proto; oc, op: OHLC; sc: side CSV
  bool out_p = false, out_o = false, out_s = false;
  string start, end;
  int compress = -1;
  int64_t rate = 300;
  double dev = 0.05;
  int64_t gaps = -1, outliers = -1;
  string InPath() const { return kind[1] == 'c' ? "/sim/in.csv" : "/sim/in.pb"; }
  vector<string> Args() const;
  static ConvJob From(const Opts& o);
};
constexpr char kOutP[] = "/sim/p.out", kOutO[] = "/sim/o.out", kOutS[] = "/sim/s.out";

// What a run is expected to store.
struct Expect {
  vector<Price> p, clean;
  vector<Ohlc> o;
  vector<Side> s;
  bool clean_known = true;
  vector<size_t> removed;
};
// The outputs the run has records for must hold exactly these; "" if so.
string CheckOutputs(const ConvJob& j, const Expect& e);
bool ParseTimeArg(const string& s, int64_t* t);
// A bound on and around the start of 1970 (up to there it does not limit).
inline string Epoch(Rng& r) {
  return r.PickOf({"1970-01-01", "1970-01-01", "1970-01-01", "1969-12-31", "1965-06-01 12:00:00", "1969-12-31 23:59:59", "1970-01-01 00:00:01"});
}
// Rows of data lines "r <text>".
vector<Price> PriceRows(const Lines& in);
vector<Ohlc> OhlcRows(const Lines& in);
vector<Side> SideRows(const Lines& in);
string Row(const Price& p);
string Row(const Ohlc& p);
string Row(const Side& p);
template <class T>
vector<T> InPeriod(const vector<T>& v, int64_t a, int64_t b) {
  vector<T> o;
  for (const T& t : v) {
    if (a > 0 && t.ts < a) continue;
    if (b > 0 && t.ts >= b) break;
    o.push_back(t);
  }
  return o;
}
// Puts the input file on the disk and computes the expected outputs (all rows well-formed).
void SetInput(const ConvJob& j, const Lines& in, const Opts& o, Expect* e);
int FiredHard(const char* suffix, bool near = false);  // hard faults that hit files with this suffix (and full disk)
vector<Ohlc> RandomOhlc(Rng& r, int n);
vector<Side> RandomSide(Rng& r, int n, int64_t start);
// The env lines of a run that may not change its result (chunking, clock, zone, ...).
void GenMemEnv(Rng& r, const string& phase, Lines* out);
void GenSoftEnv(Rng& r, const string& phase, Lines* out, bool writes = true, int intr = 0);

}  // namespace sim
