// Reference models: records, storage format, CSV, history processing. Written from the
// documented behaviour and the storage format; shares no code with the repository.
#pragma once
#include "fw.h"

namespace sim {

struct Price {
  int64_t ts = 0;
  float p = 0, v = 0;
};
// Now and then histories are far longer than usual.
inline int Mass(Rng& r) { return r.PickOf({2500, 4000, 8000, 16000, 33000}); }

struct Ohlc {
  int64_t ts = 0;
  float o = 0, h = 0, l = 0, c = 0, v = 0;
};
struct Side {
  int64_t ts = 0;
  vector<float> s;
};
bool Same(float a, float b);  // bitwise (all NaNs alike)
bool Same(const Price& a, const Price& b);
bool Same(const Ohlc& a, const Ohlc& b);
bool Same(const Side& a, const Side& b);
string Text(const Price& r);
string Text(const Ohlc& r);
string Text(const Side& r);

// Storage: length-delimited protobuf records inside gzip.
string EncodeRaw(const vector<Price>& v);
string EncodeRaw(const vector<Ohlc>& v);
string EncodeRaw(const vector<Side>& v);
string Gzip(const string& raw, int level);
bool Gunzip(const string& file, string* raw, string* why);
bool DecodeRaw(const string& raw, vector<Price>* v, string* why);
bool DecodeRaw(const string& raw, vector<Ohlc>* v, string* why);
bool DecodeRaw(const string& raw, vector<Side>* v, string* why);
template <class T>
bool DecodeFile(const string& file, vector<T>* v, string* why) {
  string raw;
  return Gunzip(file, &raw, why) && DecodeRaw(raw, v, why);
}
// "" if equal, else a description of the first difference.
template <class T>
string Diff(const vector<T>& got, const vector<T>& want) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i)
    if (!Same(got[i], want[i]))
      return Fmt("record %zu is %s, expected %s", i, Text(got[i]).c_str(), Text(want[i]).c_str());
  if (got.size() != want.size()) return Fmt("%zu records, expected %zu", got.size(), want.size());
  return "";
}

// History processing. Returns false if a decision is too close to a threshold to call.
bool ModelOutliers(const vector<Price>& in, float dev, vector<Price>* clean, vector<size_t>* removed);
vector<Ohlc> ModelResample(const vector<Price>& in, int64_t rate, vector<double>* volumes, vector<bool>* exact);
// "" or the first difference; the volumes are compared exactly where their sum is exact.
string CompareOhlc(const vector<Ohlc>& got, const vector<Price>& trades, int64_t rate);
struct Gap {
  int64_t a, b;
};
vector<Gap> ModelGaps(const vector<Price>& in, int64_t start, int64_t end, size_t n);

// Time.
int64_t DaysFromCivil(int64_t y, int m, int d);
void CivilFromDays(int64_t z, int64_t* y, int* m, int* d);
string TimeText(int64_t ts);  // "2017-01-31 00:00:00"
int64_t ModelAddMonths(int64_t ts, int64_t months);

// Feeds.
struct FeedCfg {
  int64_t start = 1500000000;
  int n = 100;
  int dt_max = 120;        // usual distance
  int p_dup = 10;          // percent: same second
  int p_gap = 3;           // percent: outage
  int64_t gap_max = 86400;
  bool dyadic_p = false, dyadic_v = false;
  int p_zero_v = 3;        // percent
  int p_glitch = 2;        // percent
  int p_jump = 1;          // percent: genuine persistent move
  double vol = 0.004;
  float price0 = 1000;
  static FeedCfg Random(Rng& r);
};
vector<Price> GenTrades(Rng& r, const FeedCfg& c);
// OHLC ticks on a grid with outages (zero-volume ticks and missing ticks).
struct TickCfg {
  int64_t start = 1500000000;
  int n = 60;
  int64_t period = 300;
  int p_zero = 10, p_missing = 2, zero_run = 4, p_jump = 4, p_thin = 3, p_wild = 1;
  bool dyadic = false;
  double vol = 0.01;
  float price0 = 1000;
};
vector<Ohlc> GenTicks(Rng& r, const TickCfg& c);

}  // namespace sim
