#include "model.h"

#include <zlib.h>

namespace sim {

bool Same(float a, float b) { return memcmp(&a, &b, sizeof a) == 0 || (isnan(a) && isnan(b)); }
bool Same(const Price& a, const Price& b) { return a.ts == b.ts && Same(a.p, b.p) && Same(a.v, b.v); }
bool Same(const Ohlc& a, const Ohlc& b) {
  return a.ts == b.ts && Same(a.o, b.o) && Same(a.h, b.h) && Same(a.l, b.l) && Same(a.c, b.c) && Same(a.v, b.v);
}
bool Same(const Side& a, const Side& b) {
  if (a.ts != b.ts || a.s.size() != b.s.size()) return false;
  for (size_t i = 0; i < a.s.size(); ++i)
    if (!Same(a.s[i], b.s[i])) return false;
  return true;
}
string Text(const Price& r) { return Fmt("(%lld %.9g %.9g)", (long long)r.ts, r.p, r.v); }
string Text(const Ohlc& r) {
  return Fmt("(%lld %.9g %.9g %.9g %.9g %.9g)", (long long)r.ts, r.o, r.h, r.l, r.c, r.v);
}
string Text(const Side& r) {
  string s = Fmt("(%lld", (long long)r.ts);
  for (float f : r.s) s += " " + Fl(f);
  return s + ")";
}

// ---------------------------------------------------------------- storage
static void PutVar(string* s, uint64_t v) {
  while (v >= 128) s->push_back((char)(v | 128)), v >>= 7;
  s->push_back((char)v);
}
static void PutInt(string* s, int field, int64_t v) {
  PutVar(s, field << 3);
  PutVar(s, (uint64_t)v);
}
static void PutFloat(string* s, int field, float f) {
  PutVar(s, field << 3 | 5);
  s->append((const char*)&f, 4);
}
static void Delim(string* s, const string& m) {
  PutVar(s, m.size());
  *s += m;
}
string EncodeRaw(const vector<Price>& v) {
  string s;
  for (const auto& r : v) {
    string m;
    PutInt(&m, 1, r.ts), PutFloat(&m, 2, r.p), PutFloat(&m, 3, r.v);
    Delim(&s, m);
  }
  return s;
}
string EncodeRaw(const vector<Ohlc>& v) {
  string s;
  for (const auto& r : v) {
    string m;
    PutInt(&m, 1, r.ts), PutFloat(&m, 2, r.o), PutFloat(&m, 3, r.h), PutFloat(&m, 4, r.l), PutFloat(&m, 5, r.c),
        PutFloat(&m, 6, r.v);
    Delim(&s, m);
  }
  return s;
}
string EncodeRaw(const vector<Side>& v) {
  string s;
  for (const auto& r : v) {
    string m;
    PutInt(&m, 1, r.ts);
    for (float f : r.s) PutFloat(&m, 2, f);
    Delim(&s, m);
  }
  return s;
}
string Gzip(const string& raw, int level) {
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  string out(deflateBound(&z, raw.size()) + 64, 0);
  z.next_in = (Bytef*)raw.data();
  z.avail_in = raw.size();
  z.next_out = (Bytef*)&out[0];
  z.avail_out = out.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort();
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
bool Gunzip(const string& file, string* raw, string* why) {
  raw->clear();
  size_t pos = 0;
  if (file.empty()) {
    *why = "the file is empty";
    return false;
  }
  while (pos < file.size()) {
    z_stream z;
    memset(&z, 0, sizeof z);
    inflateInit2(&z, 15 + 32);
    z.next_in = (Bytef*)file.data() + pos;
    z.avail_in = file.size() - pos;
    int rc;
    char buf[65536];
    do {
      z.next_out = (Bytef*)buf;
      z.avail_out = sizeof buf;
      rc = inflate(&z, Z_NO_FLUSH);
      raw->append(buf, sizeof buf - z.avail_out);
    } while (rc == Z_OK);
    pos = file.size() - z.avail_in;
    inflateEnd(&z);
    if (rc != Z_STREAM_END) {
      *why = Fmt("the compressed stream ends early or is damaged (zlib %d, %zu bytes on disk)", rc, file.size());
      return false;
    }
  }
  return true;
}

struct Msg {
  bool ok = true;
  vector<std::pair<int, uint64_t>> ints;
  vector<std::pair<int, float>> floats;
};
static bool GetVar(const string& s, size_t* p, size_t end, uint64_t* v) {
  *v = 0;
  for (int sh = 0; sh < 64; sh += 7) {
    if (*p >= end) return false;
    uint8_t b = s[(*p)++];
    *v |= (uint64_t)(b & 127) << sh;
    if (!(b & 128)) return true;
  }
  return false;
}
static bool NextMsg(const string& s, size_t* p, Msg* m, string* why) {
  uint64_t n;
  if (!GetVar(s, p, s.size(), &n) || n > s.size() - *p) {
    *why = Fmt("torn record at byte %zu of %zu", *p, s.size());
    return false;
  }
  size_t end = *p + n;
  while (*p < end) {
    uint64_t tag, v;
    if (!GetVar(s, p, end, &tag)) return *why = "bad record", false;
    int f = tag >> 3;
    switch (tag & 7) {
      case 0:
        if (!GetVar(s, p, end, &v)) return *why = "bad record", false;
        m->ints.push_back({f, v});
        break;
      case 5: {
        if (end - *p < 4) return *why = "bad record", false;
        float x;
        memcpy(&x, s.data() + *p, 4);
        *p += 4;
        m->floats.push_back({f, x});
        break;
      }
      case 1:
        if (end - *p < 8) return *why = "bad record", false;
        *p += 8;
        break;
      case 2:
        if (!GetVar(s, p, end, &v) || v > end - *p) return *why = "bad record", false;
        if (f == 2 && v % 4 == 0)  // packed floats
          for (size_t i = 0; i < v; i += 4) {
            float x;
            memcpy(&x, s.data() + *p + i, 4);
            m->floats.push_back({f, x});
          }
        *p += v;
        break;
      default:
        return *why = "bad record", false;
    }
  }
  return true;
}
template <class T, class F>
static bool DecodeAll(const string& raw, vector<T>* v, string* why, F put) {
  v->clear();
  size_t p = 0;
  while (p < raw.size()) {
    Msg m;
    if (!NextMsg(raw, &p, &m, why)) return false;
    T t;
    for (auto& kv : m.ints)
      if (kv.first == 1) t.ts = (int64_t)kv.second;
    for (auto& kv : m.floats) put(&t, kv.first, kv.second);
    v->push_back(t);
  }
  return true;
}
bool DecodeRaw(const string& raw, vector<Price>* v, string* why) {
  return DecodeAll(raw, v, why, [](Price* t, int f, float x) {
    if (f == 2) t->p = x;
    if (f == 3) t->v = x;
  });
}
bool DecodeRaw(const string& raw, vector<Ohlc>* v, string* why) {
  return DecodeAll(raw, v, why, [](Ohlc* t, int f, float x) {
    if (f == 2) t->o = x;
    if (f == 3) t->h = x;
    if (f == 4) t->l = x;
    if (f == 5) t->c = x;
    if (f == 6) t->v = x;
  });
}
bool DecodeRaw(const string& raw, vector<Side>* v, string* why) {
  return DecodeAll(raw, v, why, [](Side* t, int f, float x) {
    if (f == 2) t->s.push_back(x);
  });
}

// ---------------------------------------------------------------- history processing
// Exact where floats are: a value known exactly (a float computed without rounding) is a point.
struct Rough {
  double v;
  bool exact;
};
static Rough Of(double v, bool exact) { return {v, exact && (double)(float)v == v}; }

bool ModelOutliers(const vector<Price>& in, float dev, vector<Price>* clean, vector<size_t>* removed) {
  bool clear = true;
  auto above = [&](Rough x, Rough y) {
    if (!(x.exact && y.exact) && fabs(x.v - y.v) <= 2e-6 * fabs(y.v)) clear = false;
    return x.v > y.v;
  };
  for (size_t i = 0; i < in.size(); ++i) {
    const Price& r = in[i];
    if (!(r.p > 0) || r.v < 0) {
      removed->push_back(i);
      continue;
    }
    if (clean->empty()) {
      clean->push_back(r);
      continue;
    }
    const Price& k = clean->back();
    const double ref = k.p;
    const Rough minutes = Of(std::max(1.0, (r.ts - k.ts) / 60.0), (r.ts - k.ts) < (1 << 24) && (r.ts - k.ts) % 60 == 0);
    const double root = sqrt(minutes.v);
    const Rough one = Of(1 + (double)dev, true), rt = Of(root, minutes.exact && root * root == minutes.v);
    const Rough factor = Of(one.v * rt.v, one.exact && rt.exact);
    const Rough up = Of(ref * factor.v, factor.exact);
    const Rough down = Of(ref / factor.v, factor.exact && ref / factor.v * factor.v == ref);
    const Rough price = Of(r.p, true);
    const bool over = above(price, up), under = above(down, price);
    bool outlier = false;
    if (over || under) {
      const Rough line = {over ? ref + 0.8 * (up.v - ref) : ref + 0.8 * (down.v - ref), false};
      int seen = 0, beyond = 0;
      for (size_t j = i + 1; j < in.size() && seen < 10; ++j) {
        if (!(in[j].p > 0) || in[j].v < 0) continue;
        ++seen;
        const Rough next = Of(in[j].p, true);
        if (over ? above(next, line) : above(line, next)) ++beyond;
      }
      outlier = beyond < 3;
    }
    if (outlier)
      removed->push_back(i);
    else
      clean->push_back(r);
  }
  return clear;
}

vector<Ohlc> ModelResample(const vector<Price>& in, int64_t rate, vector<double>* volumes, vector<bool>* exact) {
  vector<Ohlc> out;
  if (in.empty()) return out;
  const int64_t first = in.front().ts / rate, last = in.back().ts / rate;
  size_t i = 0;
  float close = 0;
  for (int64_t k = first; k <= last; ++k) {
    Ohlc t;
    t.ts = k * rate;
    double vol = 0;
    bool ex = true, any = false;
    for (; i < in.size() && in[i].ts / rate == k; ++i) {
      const Price& r = in[i];
      if (!any) {
        t.o = t.h = t.l = r.p;
        any = true;
      }
      t.h = std::max(t.h, r.p);
      t.l = std::min(t.l, r.p);
      close = r.p;
      vol += r.v;
      const double q = (double)r.v * 64;
      if (q != floor(q)) ex = false;
    }
    if (!any) t.o = t.h = t.l = close;
    t.c = close;
    if (vol >= (1 << 17)) ex = false;
    t.v = vol;
    if (volumes) volumes->push_back(vol);
    if (exact) exact->push_back(ex);
    out.push_back(t);
  }
  return out;
}

string CompareOhlc(const vector<Ohlc>& got, const vector<Price>& trades, int64_t rate) {
  vector<double> vol;
  vector<bool> ex;
  vector<Ohlc> want = ModelResample(trades, rate, &vol, &ex);
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    Ohlc g = got[i];
    const bool vok = ex[i] ? g.v == (float)vol[i] : fabs(g.v - vol[i]) <= 1e-4 * vol[i];
    g.v = want[i].v;
    if (!vok || !Same(g, want[i]))
      return Fmt("tick %zu is %s, expected %s", i, Text(got[i]).c_str(), Text(want[i]).c_str());
  }
  if (got.size() != want.size()) return Fmt("%zu ticks, expected %zu", got.size(), want.size());
  return "";
}

vector<Gap> ModelGaps(const vector<Price>& in, int64_t start, int64_t end, size_t n) {
  vector<Gap> g;
  if (in.empty()) return g;
  if (start > 0) g.push_back({start, in[0].ts});
  for (size_t i = 1; i < in.size(); ++i) g.push_back({in[i - 1].ts, in[i].ts});
  if (end > 0) g.push_back({in.back().ts, end});
  std::stable_sort(g.begin(), g.end(), [](const Gap& x, const Gap& y) {
    if (x.b - x.a != y.b - y.a) return x.b - x.a > y.b - y.a;
    return x.a < y.a;
  });
  if (g.size() > n) g.resize(n);
  std::sort(g.begin(), g.end(), [](const Gap& x, const Gap& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; });
  return g;
}

// ---------------------------------------------------------------- time
static int64_t FloorDiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static bool Leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int MonthLen(int64_t y, int m) {
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : len[m - 1];
}
int64_t DaysFromCivil(int64_t y, int m, int d) {
  int64_t days = 0;
  // Plain counting from 1970; years of interest are close to it.
  for (int64_t k = 1970; k < y; ++k) days += Leap(k) ? 366 : 365;
  for (int64_t k = y; k < 1970; ++k) days -= Leap(k) ? 366 : 365;
  for (int k = 1; k < m; ++k) days += MonthLen(y, k);
  return days + d - 1;
}
void CivilFromDays(int64_t z, int64_t* y, int* m, int* d) {
  *y = 1970;
  while (z < 0) --*y, z += Leap(*y) ? 366 : 365;
  while (z >= (Leap(*y) ? 366 : 365)) z -= Leap(*y) ? 366 : 365, ++*y;
  *m = 1;
  while (z >= MonthLen(*y, *m)) z -= MonthLen(*y, *m), ++*m;
  *d = z + 1;
}
string TimeText(int64_t ts) {
  int64_t day = FloorDiv(ts, 86400), s = ts - day * 86400, y;
  int m, d;
  CivilFromDays(day, &y, &m, &d);
  return Fmt("%04lld-%02d-%02d %02d:%02d:%02d", (long long)y, m, d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
}
// Calendar months in UTC; a day beyond the end of the month runs over into the next one.
int64_t ModelAddMonths(int64_t ts, int64_t months) {
  int64_t day = FloorDiv(ts, 86400), s = ts - day * 86400, y;
  int m, d;
  CivilFromDays(day, &y, &m, &d);
  int64_t k = y * 12 + (m - 1) + months;
  y = FloorDiv(k, 12);
  m = (int)(k - y * 12) + 1;
  return (DaysFromCivil(y, m, 1) + d - 1) * 86400 + s;
}

// ---------------------------------------------------------------- feeds
static float Q(double x, bool dyadic, double unit) {
  if (dyadic) x = std::max(unit, floor(x / unit + 0.5) * unit);
  return (float)x;
}

FeedCfg FeedCfg::Random(Rng& r) {
  FeedCfg c;
  c.start = r.PickOf<int64_t>({1500000000, 1483228800, 1513987200, 1577836740, 1599999990, 1483228801});
  c.start += r.Range(0, 5000);
  c.dt_max = r.PickOf({1, 5, 30, 60, 120, 600, 4000});
  c.p_dup = r.PickOf({0, 10, 50});
  c.p_gap = r.PickOf({0, 2, 10});
  c.gap_max = r.PickOf<int64_t>({600, 7200, 86400, 86400 * 5});
  c.dyadic_p = r.Chance(1, 2);
  c.dyadic_v = r.Chance(1, 2);
  c.p_zero_v = r.PickOf({0, 3, 20});
  c.p_glitch = r.PickOf({0, 1, 5, 15});
  c.p_jump = r.PickOf({0, 1, 3});
  c.vol = r.PickOf({0.0, 0.001, 0.01, 0.03});
  c.price0 = r.PickOf({0.01f, 1.0f, 1000.0f, 60000.0f});
  if (r.Chance(1, 12)) c.price0 = r.PickOf({1e-8f, 1e-5f, 5e7f});  // satoshis and wons
  if (r.Chance(1, 12)) c.start = r.PickOf<int64_t>({2147483640LL, 4294967290LL, 946684800LL, 700000LL}) + r.Range(0, 600);
  return c;
}

vector<Price> GenTrades(Rng& r, const FeedCfg& c) {
  vector<Price> out;
  int64_t ts = c.start;
  double level = c.price0;
  const double unit = c.price0 >= 100 ? 1.0 / 16 : c.price0 / 64;
  int glitch = 0;
  double gf = 1;
  for (int i = 0; i < c.n; ++i) {
    if (i && !r.Chance(c.p_dup, 100)) {
      if (r.Chance(c.p_gap, 100))
        ts += r.Range(c.dt_max, std::max<int64_t>(c.dt_max, c.gap_max));
      else
        ts += r.Range(1, c.dt_max);
    }
    level *= exp(c.vol * (r.Unit() * 2 - 1));
    if (r.Chance(c.p_jump, 100)) level *= r.PickOf({1.2, 0.8, 1.6, 0.6, 3.0, 0.3});
    if (level < c.price0 / 1000 || level > c.price0 * 1000) level = c.price0;
    if (!glitch && r.Chance(c.p_glitch, 100)) {
      glitch = r.PickOf({1, 1, 1, 2, 3, 4, 6});
      gf = r.PickOf({1.04, 1.06, 1.1, 1.3, 2.0, 20.0, 0.95, 0.9, 0.7, 0.5, 0.01});
    }
    Price p;
    p.ts = ts;
    double x = level;
    if (glitch) x *= gf * (0.99 + 0.02 * r.Unit()), --glitch;
    p.p = Q(x, c.dyadic_p, unit);
    double v = r.Unit() * r.PickOf({0.01, 1.0, 20.0});
    if (c.dyadic_v)
      p.v = floor(v * 64) / 64;
    else
      p.v = (float)(c.price0 < 1e-4 ? v * 1e7 : v);
    if (r.Chance(c.p_zero_v, 100)) p.v = 0;
    if (r.Chance(1, 40)) p.v = c.dyadic_v ? 1 / 1024.0 : r.PickOf({1e-8f, 1e-7f, 1e-5f, 1e-30f, 1e-40f});
    out.push_back(p);
  }
  return out;
}

vector<Ohlc> GenTicks(Rng& r, const TickCfg& c) {
  vector<Ohlc> out;
  int64_t ts = c.start;
  double level = c.price0;
  const double unit = c.price0 >= 64 ? 0.25 : c.price0 / 256;
  int zero = 0;
  float close = 0;
  for (int i = 0; i < c.n; ++i, ts += c.period) {
    if (i && r.Chance(c.p_missing, 100)) {
      ts += c.period * r.Range(1, r.PickOf({2, 20, 400}));
    }
    if (!zero && r.Chance(c.p_zero, 100)) zero = r.Range(1, c.zero_run);
    Ohlc t;
    t.ts = ts;
    if (zero) {
      --zero;
      if (close == 0) close = Q(level, c.dyadic, unit);
      if (r.Chance(1, 4)) {  // an outage tick whose prices moved nevertheless
        float hi = Q(close * 1.03, c.dyadic, unit), lo = Q(close * 0.97, c.dyadic, unit);
        t.o = close, t.h = std::max(hi, close), t.l = std::min(lo, close), t.c = close;
        if (r.Chance(1, 3)) t.o = r.Chance(1, 2) ? t.h : t.l;
        if (r.Chance(1, 6)) close = t.c = r.Chance(1, 2) ? t.h : t.l;
      } else {
        t.o = t.h = t.l = t.c = close;
      }
      t.v = 0;
    } else {
      if (r.Chance(c.p_jump, 100)) level *= r.Chance(1, 12) ? r.PickOf({0.02, 0.1, 8.0, 40.0}) : r.PickOf({1.1, 0.9, 1.5, 0.6});
      const bool wild = r.Chance(c.p_wild, 100);  // a flash crash or spike within the tick
      float p[4];
      for (float& x : p) {
        level *= exp(c.vol * (r.Unit() * 2 - 1));
        x = Q(level * (wild ? r.PickOf({0.1, 0.4, 1.0, 1.0, 3.0, 12.0}) : 1), c.dyadic, unit);
      }
      if (level < c.price0 / 500 || level > c.price0 * 500) level = c.price0;
      t.o = p[0], t.c = p[3];
      t.h = *std::max_element(p, p + 4);
      t.l = *std::min_element(p, p + 4);
      double v = r.PickOf({0.05, 1.0, 30.0, 1000.0}) * (r.Unit() + 0.05);
      t.v = c.dyadic ? std::max(1.0 / 64, floor(v * 64) / 64) : v;
      // A very thin period is traded all the same; a very thick one is not special either.
      if (r.Chance(c.p_thin, 100))
        t.v = c.dyadic ? ldexp(1.0, -r.PickOf({10, 20, 24, 40}))
                       : r.PickOf({1e-8, 1e-7, 5e-7, 1e-5, 1e-3, 1e-30, 1e-25});
      else if (r.Chance(1, 100))
        t.v = c.dyadic ? 1048576 : r.PickOf({1e6, 1e9, 1e12});
      close = t.c;
    }
    out.push_back(t);
  }
  return out;
}

}  // namespace sim
