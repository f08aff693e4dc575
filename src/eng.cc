#include "eng.h"

#include <cmath>

namespace sim {

bool Same(const OrderT& a, const OrderT& b) {
  return a.type == b.type && a.side == b.side && a.base == b.base && Same(a.amt, b.amt) && a.has_price == b.has_price &&
         (!a.has_price || Same(a.price, b.price));
}
string Text(const OrderT& o) {
  return Fmt("%s %s %s %s%s", o.type == 'M' ? "market" : o.type == 'S' ? "stop" : "limit", o.side == 'B' ? "buy" : "sell",
             Fl(o.amt).c_str(), o.base ? "base" : "quote", o.has_price ? (" at " + Fl(o.price)).c_str() : "");
}

static float Num(const string& s) { return s == "nan" ? NAN : strtof(s.c_str(), nullptr); }

static bool ParseTick(const vector<string>& w, size_t at, Ohlc* t) {
  if (w.size() < at + 6) return false;
  t->ts = atoll(w[at].c_str());
  t->o = Num(w[at + 1]), t->h = Num(w[at + 2]), t->l = Num(w[at + 3]), t->c = Num(w[at + 4]), t->v = Num(w[at + 5]);
  return true;
}
static bool ParseOrder(const vector<string>& w, size_t at, OrderT* o) {
  if (w.size() < at + 4 || w[at].size() != 2) return false;
  o->type = w[at][0], o->side = w[at][1];
  o->base = w[at + 1] == "b";
  o->amt = Num(w[at + 2]);
  o->has_price = w[at + 3] != "-";
  o->price = o->has_price ? Num(w[at + 3]) : 0;
  return true;
}

vector<Ev> ParseTrace(const string& trace) {
  vector<Ev> out;
  for (string& line : SplitLines(trace)) {
    if (line.empty()) continue;
    Ev e;
    e.k = line[0];
    e.w = Words(line);
    if (line == "END") e.k = 'Z';
    const vector<string>& w = e.w;
    switch (e.k) {
      case 'X':
      case 'F':
        if (!ParseTick(w, 1, &e.t) || w.size() < 10) { e.k = '?'; break; }
        e.base = Num(w[7]), e.quote = Num(w[8]), e.fee = Num(w[9]);
        if (e.k == 'F' && !ParseOrder(w, 10, &e.o)) e.k = '?';
        break;
      case 'U': {
        if (!ParseTick(w, 1, &e.t) || w.size() < 11) { e.k = '?'; break; }
        e.base = Num(w[7]), e.quote = Num(w[8]);
        size_t n = atoi(w[9].c_str());
        if (w.size() != 11 + n) { e.k = '?'; break; }
        for (size_t i = 0; i < n; ++i) e.sig.push_back(Num(w[10 + i]));
        e.nord = atoi(w[10 + n].c_str());
        break;
      }
      case 'k':
        if (!ParseTick(w, 1, &e.t)) e.k = '?';
        break;
      case 'E':
        if (!ParseOrder(w, 1, &e.o)) e.k = '?';
        break;
    }
    e.raw.swap(line);
    out.push_back(e);
  }
  return out;
}

Eval ParseEval(const string& trace) {
  Eval r;
  for (Ev& e : ParseTrace(trace)) {
    switch (e.k) {
      case 'N': r.sessions.emplace_back(); break;
      case 'P': r.periods.push_back(e); break;
      case 'R': r.result = e; r.has_result = true; break;
      case 'Y': if (!r.sessions.empty()) r.sessions.back().y = e; break;
      case 'Z': r.ended = true; break;
      case 'B': break;
      default:
        if (r.sessions.empty()) r.sessions.emplace_back();
        r.sessions.back().ev.push_back(e);
    }
  }
  return r;
}

AccCfg AccCfg::From(const Opts& o) {
  AccCfg c;
  auto f = [&](const string& k, float* x) {
    if (o.Has(k)) *x = strtof(o.S(k).c_str(), nullptr);
  };
  f("start_base", &c.start_base);
  f("start_quote", &c.start_quote);
  f("base_unit", &c.base_unit);
  f("quote_unit", &c.quote_unit);
  f("liq", &c.liq);
  f("vol", &c.vol);
  struct { const char* p; FeeCfg* f; } fs[] = {{"m", &c.m}, {"l", &c.l}, {"s", &c.s}};
  for (auto& x : fs) {
    f(string(x.p) + "fee_rel", &x.f->rel);
    f(string(x.p) + "fee_fix", &x.f->fix);
    f(string(x.p) + "fee_min", &x.f->min);
  }
  return c;
}

vector<Ohlc> TickLines(const Lines& in) {
  vector<Ohlc> v;
  for (const string& s : in) {
    if (s.compare(0, 2, "k ") != 0) continue;
    Ohlc t;
    if (!ParseTick(Words(s), 1, &t)) continue;
    if (!v.empty() && t.ts <= v.back().ts) continue;
    v.push_back(t);
  }
  return v;
}
vector<Side> SideLines(const Lines& in) {
  vector<Side> v;
  for (const string& s : in) {
    if (s.compare(0, 2, "i ") != 0) continue;
    vector<string> w = Words(s);
    if (w.size() < 2) continue;
    Side x;
    x.ts = atoll(w[1].c_str());
    for (size_t i = 2; i < w.size(); ++i) x.s.push_back(Num(w[i]));
    v.push_back(x);
  }
  return v;
}
string Join(const Lines& in) {
  string s;
  for (const string& l : in) s += l + "\n";
  return s;
}
string TickLine(const Ohlc& t) {
  return Fmt("k %lld %s %s %s %s %s", (long long)t.ts, Fl(t.o).c_str(), Fl(t.h).c_str(), Fl(t.l).c_str(), Fl(t.c).c_str(), Fl(t.v).c_str());
}
string SideLine(const Side& s) {
  string x = Fmt("i %lld", (long long)s.ts);
  for (float f : s.s) x += " " + Fl(f);
  return x;
}

// ---------------------------------------------------------------- intervals
static constexpr double kW = 5e-7;  // about eight float ulps
static Iv Wid(double lo, double hi, bool exact) {
  if (exact && lo == hi && (double)(float)lo == lo) return Iv(lo);
  return Iv(lo - fabs(lo) * kW, hi + fabs(hi) * kW);
}
Iv Add(Iv a, Iv b) { return Wid(a.lo + b.lo, a.hi + b.hi, a.Point() && b.Point()); }
Iv Sub(Iv a, Iv b) { return Wid(a.lo - b.hi, a.hi - b.lo, a.Point() && b.Point()); }
Iv Mul(Iv a, Iv b) {
  double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  return Wid(*std::min_element(p, p + 4), *std::max_element(p, p + 4), a.Point() && b.Point());
}
Iv Div(Iv a, Iv b) {
  double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
  double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
  // An exact quotient multiplies back exactly.
  bool exact = a.Point() && b.Point() && (long double)lo * (long double)b.lo == (long double)a.lo;
  return Wid(lo, hi, exact);
}
Tri Less(Iv a, Iv b) { return a.hi < b.lo ? YES : a.lo >= b.hi ? NO : MAYBE; }
Tri LessEq(Iv a, Iv b) { return a.hi <= b.lo ? YES : a.lo > b.hi ? NO : MAYBE; }
static Tri And(Tri a, Tri b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : MAYBE; }

// Amounts are counted in units (or are plain values, if the unit is zero).
static constexpr double kBig = 1 << 20;
static Iv Blur(Iv n) {  // counts beyond the float's precision are blurred
  if (n.lo < -kBig || n.hi > kBig) {
    double w = std::max(fabs(n.lo), fabs(n.hi)) / (1 << 20);
    return Iv(n.lo - w, n.hi + w);
  }
  return n;
}
enum Rnd { RD, RU, RN };
static Iv Units(Iv v, float unit, Rnd m) {
  if (!(unit > 0)) return v;
  Iv q = Div(v, Iv(unit));
  auto f = [m](double x) { return m == RD ? floor(x) : m == RU ? ceil(x) : round(x); };
  return Blur(Iv(f(q.lo), f(q.hi)));
}
static Iv Value(Iv n, float unit) { return unit > 0 ? Mul(n, Iv(unit)) : n; }
static bool Pow2(float u) {
  int e;
  return u > 0 && frexpf(u, &e) == 0.5f;
}
// The units of a balance.
static Iv Bal(float b, float unit) {
  if (!(unit > 0)) return Iv(b);
  return Blur(Iv(round((double)b / unit)));
}
// Is the balance exactly the float the engine computes for that many units?
static bool Canon(float b, float unit) {
  if (!(unit > 0)) return true;
  double n = round((double)b / unit);
  return (float)(unit * (float)n) == b;
}
// Comparison of counts that went through a sum: equality is only exact for power-of-two units.
static Tri SumLessEq(Iv a, Iv b, float unit) {
  if (Pow2(unit) || !(unit > 0)) return LessEq(a, b);
  if (a.hi < b.lo) return YES;
  if (a.lo > b.hi) return NO;
  return MAYBE;
}

Iv FeeIv(const AccCfg& c, char type, Iv quote) {
  const FeeCfg& f = c.Fee(type);
  Iv v = Max(Iv(f.min), Add(Iv(f.fix), Mul(Value(quote, c.quote_unit), Iv(f.rel))));
  return Units(v, c.quote_unit, RU);
}

static Tri AtLeastOne(Iv n, float unit) {
  if (unit > 0) return LessEq(Iv(1), n);
  return n.lo > 0 ? YES : n.hi <= 0 ? NO : MAYBE;
}

static Decision BuyBase(const AccCfg& c, char type, Iv base, Iv price, float qb) {
  Decision d;
  d.base = base;
  d.price = price;
  d.exec = AtLeastOne(base, c.base_unit);
  if (d.exec == NO) return d;
  Iv q = Units(Mul(Value(base, c.base_unit), price), c.quote_unit, RU);
  Iv fee = FeeIv(c, type, q);
  Iv total = c.quote_unit > 0 ? Blur(Iv(q.lo + fee.lo, q.hi + fee.hi)) : Add(q, fee);
  d.exec = And(d.exec, SumLessEq(total, Bal(qb, c.quote_unit), c.quote_unit));
  return d;
}
static Decision SellBase(const AccCfg& c, char type, Iv base, Iv price, float bb) {
  Decision d;
  d.base = base;
  d.price = price;
  d.exec = AtLeastOne(base, c.base_unit);
  if (d.exec == NO) return d;
  Iv bal = Bal(bb, c.base_unit);
  Tri fits = LessEq(base, bal);
  if (fits == YES && base.hi == bal.lo && !Canon(bb, c.base_unit)) fits = MAYBE;
  d.exec = And(d.exec, fits);
  Iv q = Units(Mul(Value(base, c.base_unit), price), c.quote_unit, RD);
  Iv fee = FeeIv(c, type, q);
  Iv total = c.quote_unit > 0 ? Blur(Iv(q.lo - fee.hi, q.hi - fee.lo)) : Sub(q, fee);
  if (c.quote_unit > 0)
    d.exec = And(d.exec, SumLessEq(Iv(1), total, c.quote_unit));
  else
    d.exec = And(d.exec, total.lo > 0 ? YES : total.hi < 0 ? NO : MAYBE);
  return d;
}

Decision Decide(const AccCfg& c, const OrderT& o, const Ohlc& t, float bb, float qb) {
  Decision no;
  const bool buy = o.side == 'B';
  const float worst = buy ? t.h : t.l;
  Iv price;
  Iv cap(INFINITY);
  const Iv wl(c.liq), wr = Sub(Iv(1), Iv(c.liq));
  // The weighted mean, however it is written down.
  auto mean = [&](float from) {
    const Iv a = Add(Mul(wl, Iv(from)), Mul(wr, Iv(worst)));
    const Iv b = Sub(Iv(worst), Mul(wl, Sub(Iv(worst), Iv(from))));
    return Iv(std::min(a.lo, b.lo), std::max(a.hi, b.hi));
  };
  if (o.type == 'M') {
    price = mean(t.o);
  } else if (o.type == 'S') {
    if (buy ? t.h < o.price : t.l > o.price) return no;
    const float from = buy ? std::max(o.price, t.o) : std::min(o.price, t.o);
    price = mean(from);
  } else {
    if (buy ? t.l > o.price : t.h < o.price) return no;
    price = Iv(o.price);
    if (c.vol > 0) cap = Units(Mul(Iv(c.vol), Iv(t.v)), c.base_unit, RD);
  }
  Iv base;
  Tri pre = YES;
  if (o.base) {
    base = Min(Units(Iv(o.amt), c.base_unit, RN), cap);
  } else {
    Iv q = Units(Iv(o.amt), c.quote_unit, RN);
    pre = c.quote_unit > 0 ? LessEq(Iv(1), q) : YES;
    if (pre == NO) return no;
    Iv fee = FeeIv(c, o.type, q);
    Iv net;
    if (buy) {
      Iv bal = Bal(qb, c.quote_unit);
      Tri fits = LessEq(q, bal);
      if (fits == YES && q.hi == bal.lo && !Canon(qb, c.quote_unit)) fits = MAYBE;
      pre = And(pre, fits);
      Tri pays;
      if (c.quote_unit > 0 && !Pow2(c.quote_unit))
        pays = fee.hi < q.lo ? YES : fee.lo > q.hi ? NO : MAYBE;
      else
        pays = Less(fee, q);
      pre = And(pre, pays);
      if (pre == NO) return no;
      net = c.quote_unit > 0 ? Iv(q.lo - fee.hi, q.hi - fee.lo) : Sub(q, fee);
      if (c.quote_unit > 0 && !Pow2(c.quote_unit)) {
        // The difference of two decimal amounts is only approximately a whole count.
        const double w = std::max(fabs(q.hi), fabs(fee.hi)) * 2.4e-7;
        net = Iv(net.lo - w, net.hi + w);
      }
    } else {
      net = c.quote_unit > 0 ? Iv(q.lo + fee.lo, q.hi + fee.hi) : Add(q, fee);
    }
    if (net.lo < 0) net.lo = 0;
    // The share is rounded down twice: a decimal unit may lose one more unit by that.
    if (c.base_unit > 0 && !Pow2(c.base_unit) && cap.lo >= 1 && cap.lo < 1e30) cap.lo -= 1;
    base = Min(Units(Div(Value(net, c.quote_unit), price), c.base_unit, RD), cap);
  }
  Decision d = buy ? BuyBase(c, o.type, base, price, qb) : SellBase(c, o.type, base, price, bb);
  d.exec = And(d.exec, pre);
  return d;
}

// ---------------------------------------------------------------- following a history
static string At(const Ohlc& t) { return Fmt("tick %lld", (long long)t.ts); }

Findings Follow(const AccCfg& c, const Ohlc* ticks, size_t n, const Session& s) {
  Findings f;
  auto st = [&](const string& m) { if (f.structure.empty()) f.structure = m; };
  auto le = [&](const string& m) { if (f.ledger.empty()) f.ledger = m; };
  auto de = [&](const string& m) { if (f.decision.empty()) f.decision = m; };
  float base = c.start_base, quote = c.start_quote, fee = 0;
  auto balances = [&](const char* what, float x, float unit) {
    if (!(x >= 0)) return le(Fmt("the %s balance is %s", what, Fl(x).c_str()));
    if (!(unit > 0)) return;
    const double q = (double)x / unit, k = round(q);
    if (fabs(q - k) > std::max(1e-3, k * 1e-6) && k < 4e5) le(Fmt("the %s balance %s is not a multiple of %s", what, Fl(x).c_str(), Fl(unit).c_str()));
  };
  vector<OrderT> pending;
  vector<bool> done;
  size_t i = 0;
  const vector<Ev>& ev = s.ev;
  for (size_t k = 0; k < n; ++k) {
    const Ohlc& t = ticks[k];
    ++f.ticks;
    if (i >= ev.size() || ev[i].k != 'X' || !Same(ev[i].t, t)) {
      st(Fmt("%s: expected the log entry of this tick, found %s", At(t).c_str(), i < ev.size() ? ev[i].raw.substr(0, 100).c_str() : "the end"));
      return f;
    }
    if (!Same(ev[i].base, base) || !Same(ev[i].quote, quote) || !Same(ev[i].fee, fee))
      le(Fmt("%s: the account changed to %s/%s/%s without an executed order, it was %s/%s/%s", At(t).c_str(), Fl(ev[i].base).c_str(),
             Fl(ev[i].quote).c_str(), Fl(ev[i].fee).c_str(), Fl(base).c_str(), Fl(quote).c_str(), Fl(fee).c_str()));
    base = ev[i].base, quote = ev[i].quote, fee = ev[i].fee;
    ++i;
    // Executions of this tick, in emission order.
    size_t p = 0;
    auto skip_to = [&](size_t to) {
      for (; p < to; ++p) {
        if (done[p]) continue;
        Decision d = Decide(c, pending[p], t, base, quote);
        if (d.exec == YES)
          de(Fmt("%s: the %s is not executed (balances %s base, %s quote), although it must trade at %.9g", At(t).c_str(),
                 Text(pending[p]).c_str(), Fl(base).c_str(), Fl(quote).c_str(), d.price.lo));
        if (d.exec == MAYBE) ++f.ambiguous;
        ++f.rejected;
      }
    };
    while (i < ev.size() && ev[i].k == 'F') {
      const Ev& e = ev[i];
      if (!Same(e.t, t)) {
        st(Fmt("%s: an execution is logged with another tick: %.100s", At(t).c_str(), e.raw.c_str()));
        return f;
      }
      size_t m = p;
      while (m < pending.size() && (done[m] || !Same(pending[m], e.o))) ++m;
      if (m == pending.size()) {
        st(Fmt("%s: %s is executed, but is not pending (any more) at this point", At(t).c_str(), Text(e.o).c_str()));
        return f;
      }
      skip_to(m);
      Decision d = Decide(c, e.o, t, base, quote);
      if (d.exec == NO)
        de(Fmt("%s: the %s is executed (balances %s base, %s quote), although it must be rejected", At(t).c_str(), Text(e.o).c_str(),
               Fl(base).c_str(), Fl(quote).c_str()));
      if (d.exec == MAYBE) ++f.ambiguous;
      // Ledger.
      const bool buy = e.o.side == 'B';
      balances("base", e.base, c.base_unit);
      balances("quote", e.quote, c.quote_unit);
      const double bu = c.base_unit > 0 ? c.base_unit : 1, qu = c.quote_unit > 0 ? c.quote_unit : 1;
      auto cnt = [](double x, float unit, double u) { return unit > 0 ? round(x / u) : x; };
      const double b0 = cnt(base, c.base_unit, bu), b1 = cnt(e.base, c.base_unit, bu);
      const double q0 = cnt(quote, c.quote_unit, qu), q1 = cnt(e.quote, c.quote_unit, qu);
      const double f0 = cnt(fee, c.quote_unit, qu), f1 = cnt(e.fee, c.quote_unit, qu);
      const double db = buy ? b1 - b0 : b0 - b1, df = f1 - f0, dq = buy ? q0 - q1 : q1 - q0;
      // Precision of the observed differences.
      auto prec = [](double a, double b, float unit) {
        const double m = std::max(fabs(a), fabs(b));
        return unit > 0 ? (m > kBig ? m / (1 << 20) : 0) : m * 5e-7 + 1e-30;
      };
      const double pb = prec(b0, b1, c.base_unit), pq = prec(q0, q1, c.quote_unit), pf = prec(f0, f1, c.quote_unit);
      const double worth = buy ? dq - df : dq + df;  // value of the trade without the fee
      const double pw = pq + pf;
      const string what = Fmt("%s: the %s moves %s -> %s base, %s -> %s quote, fees %s -> %s", At(t).c_str(), Text(e.o).c_str(), Fl(base).c_str(),
                              Fl(e.base).c_str(), Fl(quote).c_str(), Fl(e.quote).c_str(), Fl(fee).c_str(), Fl(e.fee).c_str());
      if (!(db > -pb) || (db <= 0 && pb == 0)) le(what + ": no base is traded");
      if (df < -pf) le(what + ": the fee total shrinks");
      // Any price the tick or the order allows; on a flat tick traded at its price this is one price.
      float lo = t.l, hi = t.h;
      if (e.o.type != 'M') lo = std::min(lo, e.o.price), hi = std::max(hi, e.o.price);
      const Iv pr = lo == hi ? (e.o.type == 'L' ? Iv(lo) : Add(Mul(Iv(c.liq), Iv(lo)), Mul(Sub(Iv(1), Iv(c.liq)), Iv(lo)))) : Iv(lo - fabs(lo) * 1e-6 - (e.o.type == 'L' ? 0 : fabs(hi) * 2e-7), hi + fabs(hi) * 1e-6);
      Iv w = Units(Mul(Value(Iv(std::max(0.0, db - pb), db + pb), c.base_unit), pr), c.quote_unit, buy ? RU : RD);
      if (worth + pw < w.lo || worth - pw > w.hi)
        le(what + Fmt(": the value traded is %.9g, expected %.9g to %.9g (quote units)", worth, w.lo, w.hi));
      Iv fe = FeeIv(c, e.o.type, Iv(std::max(0.0, worth - pw), std::max(0.0, worth + pw)));
      if (df + pf < fe.lo || df - pf > fe.hi) le(what + Fmt(": the fee is %.9g, expected %.9g to %.9g (quote units)", df, fe.lo, fe.hi));
      // Price and size.
      if (d.exec != NO) {
        if (db + pb < d.base.lo || db - pb > d.base.hi)
          de(what + Fmt(": traded %.9g base units, expected %.9g to %.9g", db, d.base.lo, d.base.hi));
        Iv x = Units(Mul(Value(Iv(std::max(0.0, db - pb), db + pb), c.base_unit), d.price), c.quote_unit, buy ? RU : RD);
        const double slack = c.quote_unit > 0 ? 1 : 0;
        if (worth + pw + slack < x.lo || worth - pw - slack > x.hi)
          de(what + Fmt(": traded for %.9g quote units, expected %.9g to %.9g (price %.9g)", worth, x.lo, x.hi, d.price.lo));
        if (!e.o.base && c.quote_unit > 0) {
          const double want = Units(Iv(e.o.amt), c.quote_unit, RN).hi;
          if (dq - pq > want + 1 + (want + df) * 1e-6) de(what + Fmt(": spends or yields %.9g quote units, more than requested", dq));
        }
        if (e.o.base && db + pb + 0.5 < round(e.o.amt / bu)) ++f.capped;
      }
      base = e.base, quote = e.quote, fee = e.fee;
      done[m] = true;
      p = m + 1;
      ++f.executed;
      ++i;
    }
    skip_to(pending.size());
    const bool called = i < ev.size() && ev[i].k == 'U';
    if (t.v == 0) {
      if (called) {
        st(At(t) + ": the strategy is called although the tick has no volume");
        return f;
      }
      for (bool x : done) f.carried += !x;
      continue;
    }
    if (!called) {
      st(Fmt("%s: expected the strategy to be called, found %s", At(t).c_str(), i < ev.size() ? ev[i].raw.substr(0, 100).c_str() : "the end"));
      return f;
    }
    ++f.updates;
    const Ev& u = ev[i];
    if (!Same(u.t, t)) {
      st(Fmt("%s: the strategy is shown another tick: %.100s", At(t).c_str(), u.raw.c_str()));
      return f;
    }
    if (!Same(u.base, base) || !Same(u.quote, quote))
      le(Fmt("%s: the strategy is shown balances %s/%s, the account has %s/%s", At(t).c_str(), Fl(u.base).c_str(), Fl(u.quote).c_str(), Fl(base).c_str(), Fl(quote).c_str()));
    if (u.nord != 0) st(Fmt("%s: the strategy is called with %d active orders", At(t).c_str(), u.nord));
    ++i;
    pending.clear();
    done.clear();
    while (i < ev.size() && ev[i].k == 'E') pending.push_back(ev[i].o), done.push_back(false), ++i;
    if (i >= ev.size() || ev[i].k != 'T') {
      st(Fmt("%s: the state of the strategy is not logged", At(t).c_str()));
      return f;
    }
    ++i;
  }
  if (i != ev.size()) st(Fmt("more than the ticks of the history is logged: %.100s", ev[i].raw.c_str()));
  return f;
}

int SideIndex(const vector<Side>& side, int64_t ts) {
  int k = -1;
  for (size_t i = 0; i < side.size() && side[i].ts <= ts; ++i) k = i;
  return k;
}

vector<Window> ModelWindows(const vector<Ohlc>& t, int64_t start, int64_t end, int months) {
  vector<Window> out;
  for (int64_t k = 0;; ++k) {
    Window w;
    w.start = months > 0 ? ModelAddMonths(start, k) : start;
    w.end = months > 0 ? ModelAddMonths(w.start, months) : end;
    if (months > 0 && w.end > end) break;
    w.lo = 0;
    while (w.lo < t.size() && w.start > 0 && t[w.lo].ts < w.start) ++w.lo;
    w.hi = w.lo;
    while (w.hi < t.size() && (w.end <= 0 || t[w.hi].ts < w.end)) ++w.hi;
    if (w.lo < w.hi) out.push_back(w);
    if (months <= 0) break;
  }
  return out;
}

// ---------------------------------------------------------------- results
static bool Near(double a, double b, double rel) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + 1e-30;
}

// Daily volatility of a portfolio, by definition: the standard deviation of the logarithmic
// returns of its daily closing values (before the first day: the value at the first open);
// days without any tick close at the previous close, valued with the balances that follow.
struct VolTick {
  int64_t day;
  double open, close, base, quote;
};
static void ModelVolatility(const vector<VolTick>& ticks, double* vol, double* noise) {
  *vol = *noise = 0;
  if (ticks.empty()) return;
  vector<double> value = {ticks[0].base * ticks[0].open + ticks[0].quote};
  for (size_t i = 0; i < ticks.size(); ++i) {
    const VolTick& t = ticks[i];
    const double v = t.base * t.close + t.quote;
    if (i && t.day == ticks[i - 1].day) {
      value.back() = v;
      continue;
    }
    if (i)
      for (int64_t k = ticks[i - 1].day + 1; k < t.day; ++k) value.push_back(t.base * ticks[i - 1].close + t.quote);
    value.push_back(v);
  }
  double m = 0, s = 0;
  const size_t n = value.size() - 1;
  for (size_t i = 0; i < n; ++i) {
    const double d = log(value[i + 1] / value[i]);
    m += d / n;
    *noise = std::max(*noise, fabs(d));
  }
  for (size_t i = 0; i < n; ++i) s += pow(log(value[i + 1] / value[i]) - m, 2) / n;
  *vol = sqrt(s) * sqrt(365.0);
}

string CheckResults(const AccCfg& c, const vector<Ohlc>& t, const vector<Window>& w, const Eval& e, bool fast) {
  if (e.periods.size() != w.size()) return Fmt("%zu windows are reported, expected %zu", e.periods.size(), w.size());
  if (e.sessions.size() != w.size()) return Fmt("%zu windows were executed, expected %zu", e.sessions.size(), w.size());
  double sg = 0, sb = 0, so = 0, sf = 0, lg = 0;
  bool zero = false;
  for (size_t i = 0; i < w.size(); ++i) {
    const vector<string>& p = e.periods[i].w;
    if (p.size() != 17) return "malformed period " + e.periods[i].raw;
    auto num = [&](int k) { return p[k] == "nan" ? NAN : strtod(p[k].c_str(), nullptr); };
    const string who = Fmt("window %zu [%lld, %lld): ", i, (long long)w[i].start, (long long)w[i].end);
    if (atoll(p[1].c_str()) != w[i].start || atoll(p[2].c_str()) != w[i].end)
      return who + Fmt("reported as [%s, %s)", p[1].c_str(), p[2].c_str());
    // What happened.
    float base = c.start_base, quote = c.start_quote, fee = 0;
    int orders = 0;
    const Session& s = e.sessions[i];
    for (const Ev& v : s.ev)
      if (v.k == 'F') base = v.base, quote = v.quote, fee = v.fee, ++orders;
    const double sp = t[w[i].lo].c, ep = t[w[i].hi - 1].c;
    const double sv = c.start_quote + sp * c.start_base, evv = quote + ep * base;
    struct { const char* name; int at; double want; double rel; } chk[] = {
        {"start base balance", 3, c.start_base, 0}, {"start quote balance", 4, c.start_quote, 0}, {"end base balance", 5, base, 0},
        {"end quote balance", 6, quote, 0}, {"start price", 7, sp, 0}, {"end price", 8, ep, 0}, {"start value", 9, sv, 1e-6},
        {"end value", 10, evv, 1e-6}, {"number of executed orders", 11, (double)orders, 0}, {"total fee", 12, fee, 0},
        {"gain", 15, evv / sv, 2e-6}, {"baseline gain", 16, ep / sp, 2e-6}};
    for (auto& k : chk)
      if (!Near(num(k.at), k.want, std::max(k.rel, 2e-8))) return who + Fmt("the %s is reported as %s, expected %.9g", k.name, p[k.at].c_str(), k.want);
    if (!fast) {
      // Volatilities over the ticks the strategy saw.
      vector<VolTick> b, q;
      for (const Ev& v : s.ev) {
        if (v.k != 'U') continue;
        b.push_back({v.t.ts / 86400, v.t.o, v.t.c, 1, 0});
        q.push_back({v.t.ts / 86400, v.t.o, v.t.c, v.base, v.quote});
      }
      for (int k = 0; k < 2; ++k) {
        double want = 0, noise = 0;
        ModelVolatility(k ? q : b, &want, &noise);
        const double got = num(13 + k);
        // The float recurrence cancels: absolute slack in proportion to the moves.
        const double slack = 19.2 * (noise * 2e-3 + 2e-6) + want * 1e-3;
        if (!(fabs(got - want) <= slack)) return who + Fmt("the %s volatility is reported as %s, expected %.9g (+- %.3g)", k ? "trader's" : "baseline", p[13 + k].c_str(), want, slack);
      }
    }
    const double g = num(15), bg = num(16);
    sg += g, sb += bg, so += orders, sf += fee;
    if (g / bg > 0) lg += log(g / bg); else zero = true;
  }
  if (!e.has_result || e.result.w.size() < 10) return "no result is reported";
  const vector<string>& r = e.result.w;
  const size_t z = r.size();
  const double n = w.size();
  auto num = [&](int k) { return r[z - 8 + k] == "nan" ? NAN : strtod(r[z - 8 + k].c_str(), nullptr); };
  const double score = w.empty() || zero ? 0 : exp(lg / n);
  struct { const char* name; double want; } chk[] = {{"score", score}, {"average gain", n ? sg / n : 0}, {"average baseline gain", n ? sb / n : 0},
                                                     {"average number of orders", n ? so / n : 0}, {"average fee", n ? sf / n : 0}};
  for (int k = 0; k < 5; ++k)
    if (!Near(num(k), chk[k].want, 1e-5)) return Fmt("the %s is reported as %s, expected %.9g", chk[k].name, r[z - 8 + k].c_str(), chk[k].want);
  return "";
}

// ---------------------------------------------------------------- generators
void GenAccount(Rng& r, int style, Lines* out) {
  auto put = [&](const char* k, float v) { out->push_back(string("o ") + k + " " + Fl(v)); };
  float bu, qu;
  if (style == 0) {
    bu = r.PickOf({1.0f / 16, 1.0f / 64, 1.0f / 256, 1.0f});
    qu = r.PickOf({1.0f / 4, 1.0f / 16, 1.0f / 64, 1.0f});
  } else if (style == 1) {
    bu = r.PickOf({0.00001f, 0.001f, 0.0001f, 0.01f, 0.00001f});
    qu = r.PickOf({0.01f, 0.01f, 0.1f, 0.001f});
  } else {
    bu = r.PickOf({0.0f, 0.0f, 0.001f, 1.0f / 64});
    qu = bu == 0 ? r.PickOf({0.0f, 0.0f, 0.01f, 1.0f / 16}) : 0;
  }
  // Satoshis, whole lots and the like: any unit will do, if the counts stay exact.
  const bool odd = style == 1 && r.Chance(1, 4);
  if (odd) {
    bu = r.PickOf({1e-8f, 1e-6f, 1e-5f, 5.0f, 100.0f});
    qu = r.PickOf({1e-8f, 1e-6f, 1e-5f, 1e-4f, 5.0f, 0.05f});
  }
  // Large fortunes in small units: counts far beyond the float's (and an integer's) precision.
  const bool big = style == 1 && !odd && r.Chance(1, 8);
  if (big) {
    bu = r.PickOf({1e-8f, 1e-8f, 1e-6f, 1e-5f, 1.0f});
    qu = r.PickOf({1e-8f, 1e-4f, 0.01f, 0.01f});
  }
  put("base_unit", bu);
  put("quote_unit", qu);
  const float b1 = bu > 0 ? bu : 0.37f, q1 = qu > 0 ? qu : 0.61f;
  const int which = r.Below(4);
  auto start = [&](float u, double want) { return (float)(u * (float)round(want / u)); };
  const double scale = style == 0 ? 8 : r.PickOf({0.5, 4.0, 20.0});
  const double rich = big ? exp(r.Unit() * 14) : 1;
  const double qs = odd ? qu * exp(r.Unit() * 12) : rich * scale * 200 * (0.2 + r.Unit());
  put("start_base", which == 0 ? 0 : start(b1, odd ? bu * exp(r.Unit() * 12) : rich * scale * (0.2 + r.Unit())));
  put("start_quote", which == 1 ? 0 : start(q1, qs));
  for (const char* k : {"m", "l", "s"}) {
    float rel, fix, mn;
    if (style == 0) {
      rel = r.PickOf({0.0f, 1.0f / 256, 1.0f / 128, 1.0f / 64, 1.0f / 32});
      fix = r.PickOf({0.0f, 0.0f, 1.0f / 8, 1.0f, 1.0f / 1024});
      mn = r.PickOf({0.0f, 0.0f, 1.0f / 4, 2.0f, 1.0f / 1024});
    } else {
      rel = r.PickOf({0.005f, 0.001f, 0.0f, 0.02f, 0.0026f});
      fix = r.PickOf({0.0f, 0.0f, 0.05f, 1.0f});
      mn = r.PickOf({0.0f, 0.0f, 0.5f, 2.5f});
    }
    if (odd) {
      fix = (float)r.PickOf({0.0, 0.0, qu * 0.5, qu * 2.3, qs * 0.01});
      mn = (float)r.PickOf({0.0, 0.0, qu * 0.9, qu * 7.0, qs * 0.02});
    }
    out->push_back(string("o ") + k + "fee_rel " + Fl(rel));
    out->push_back(string("o ") + k + "fee_fix " + Fl(fix));
    out->push_back(string("o ") + k + "fee_min " + Fl(mn));
  }
  put("liq", r.PickOf({0.0f, 0.25f, 0.5f, 0.75f, 1.0f}));
  put("vol", r.PickOf({0.0f, 0.25f, 0.5f, 1.0f, 0.125f}));
}

vector<Ohlc> GenEngTicks(Rng& r, const EngGen& g) {
  TickCfg c;
  c.start = r.PickOf<int64_t>({1500000000, 1483228800, 1577836800, 2147483640LL, 4294967290LL, 946684800, 300});
  c.start += r.Range(0, 3) * 300;
  c.period = r.PickOf({1, 60, 300, 3600, 86400});
  c.n = g.full || r.Chance(1, 6) ? r.Range(g.max_ticks / 2, g.max_ticks) : r.Range(2, 30);
  c.p_zero = r.PickOf({0, 5, 20, 45});
  c.zero_run = r.PickOf({1, 2, 6});
  c.p_missing = r.PickOf({0, 2, 10});
  c.p_jump = r.PickOf({0, 4, 15});
  c.p_wild = r.PickOf({0, 1, 1, 10});
  c.dyadic = g.style == 0;
  c.vol = r.PickOf({0.002, 0.01, 0.05});
  if (g.full) c.vol = r.PickOf({0.01, 0.05, 0.1}), c.p_missing = 0, c.p_zero = r.PickOf({0, 0, 5});
  c.price0 = g.style == 0 ? r.PickOf({128.0f, 100.0f, 512.0f}) : r.PickOf({0.01f, 1.0f, 100.0f, 3000.0f});
  if (g.style == 1 && r.Chance(1, 20)) c.price0 = r.PickOf({1e-6f, 1e-4f, 60000.0f});
  if (g.mass && r.Chance(1, g.mass)) {  // (calm: profits must not grow out of the range of float)
    c.n = Mass(r), c.period = r.PickOf({1, 60, 300});
    c.p_jump = c.p_wild = 0, c.vol = r.PickOf({0.0002, 0.001});
  }
  vector<Ohlc> v = GenTicks(r, c);
  if (g.flat)
    for (Ohlc& t : v)
      if (r.Chance(4, 5)) t.o = t.h = t.l = t.c;
  if (g.outage && r.Chance(1, g.outage) && v.size() > 1) {
    const size_t at = r.Below(v.size() - 1);  // after this tick
    const int64_t n = r.PickOf({150, 300, 1100, 1100, 5000});
    const int64_t shift = n * c.period;
    vector<Ohlc> w(v.begin(), v.begin() + at + 1);
    const float p = v[at].c;
    for (int64_t i = 1; i <= n; ++i) w.push_back({v[at].ts + i * c.period, p, p, p, p, 0});
    for (size_t i = at + 1; i < v.size(); ++i) {
      w.push_back(v[i]);
      w.back().ts += shift;
    }
    v.swap(w);
  }
  return v;
}

vector<Side> GenEngSide(Rng& r, const vector<Ohlc>& t) {
  vector<Side> v;
  const bool mass = t.size() > 2000;
  const int k = mass ? r.PickOf({1, 1, 2}) : r.Chance(1, 60) ? r.PickOf({20, 70, 260}) : r.PickOf({0, 1, 1, 2, 3, 6});
  const int64_t period = t.size() > 1 ? std::max<int64_t>(1, t[1].ts - t[0].ts) : 60;
  const int64_t end = t.back().ts + 2 * period;
  int64_t ts = t[0].ts + r.PickOf<int64_t>({-3 * period, -1, 0, 1, 2 * period, (end - t[0].ts) / 2, -1000000, -40000000});
  if (ts < 1) ts = 1;
  const int style = r.Below(6);
  // Now and then a feed far denser than the ticks.
  const bool dense = r.Chance(1, mass ? 2 : 50) && k <= 2;
  const size_t most = dense ? mass ? 40000 : 5000 : 400;
  const int64_t fine = std::max<int64_t>(1, (end - ts) / (most * 9 / 10));
  while (ts <= end && v.size() < most) {
    Side s;
    s.ts = ts;
    for (int i = 0; i < k; ++i) s.s.push_back((float)((r.Unit() - 0.5) * r.PickOf({1.0, 1000.0, 0.0})));
    v.push_back(s);
    int64_t step;
    switch (style) {
      case 0: step = period; break;                                    // in step with the ticks
      case 1: step = r.Range(1, std::max<int64_t>(1, period / 4)); break;  // many per tick
      case 2: step = period * r.Range(1, 20); break;                   // sparse
      case 3: step = r.PickOf<int64_t>({1, period, period * 10, period / 2 + 1}); break;
      case 4: step = r.Chance(1, 8) ? period * 50 : r.Range(1, 3); break;  // bursts
      default: step = r.Range(1, 3 * period);
    }
    if (dense) step = r.Range(1, fine);
    ts += std::max<int64_t>(1, step);
    if (!dense && r.Chance(1, 6)) {  // exactly on a tick
      const int64_t x = t[r.Below(t.size())].ts + r.PickOf({0, 0, 1, -1});
      if (x > v.back().ts) ts = x;
    }
    if (!dense && r.Chance(1, 60)) break;
  }
  return v;
}

void GenOrders(Rng& r, const vector<Ohlc>& t, int style, const Opts& o, int idx, Lines* out) {
  AccCfg c = AccCfg::From(o);
  const int busy = r.PickOf({20, 60, 95});
  const int maxn = r.PickOf({1, 2, 4, 9});
  int k = -1;
  const float pu = style == 0 ? 0.25f : 0;
  for (size_t j = 0; j < t.size(); ++j) {
    if (t[j].v == 0) continue;
    ++k;
    if (!r.Chance(busy, 100)) continue;
    const int n = r.Range(1, maxn);
    for (int i = 0; i < n; ++i) {
      const char type = r.PickOf({'M', 'S', 'L', 'L'}), side = r.PickOf({'B', 'S'});
      // Aim at one of the next few ticks.
      const Ohlc& a = t[std::min(t.size() - 1, j + 1 + (r.Chance(1, 4) ? r.Below(4) : 0))];
      char pk = '-';
      float price = 0;
      if (type != 'M') {
        if (r.Chance(3, 5)) {
          pk = 'a';
          price = r.PickOf({a.o, a.h, a.l, a.c, a.h, a.l});
          if (r.Chance(1, 3)) price = pu > 0 ? price + r.PickOf({-pu, pu, 4 * pu}) : r.Chance(1, 2) ? nextafterf(price, r.Chance(1, 2) ? 0 : 1e30f) : price * r.PickOf({0.99f, 1.01f, 0.9f, 1.1f});
          if (!(price > 0)) price = a.c;
        } else {
          pk = 'r';
          price = r.PickOf({1.0f, 0.96875f, 1.03125f, 0.875f, 1.125f, 1.5f, 0.5f});
        }
      } else if (r.Chance(1, 12)) {
        pk = 'a', price = a.c;  // a market order that carries a price
      }
      char kind;
      float amt;
      switch (r.Below(10)) {
        case 0: case 1: kind = side == 'S' ? 'B' : 'V'; amt = r.PickOf({1.0f, 0.5f, 0.25f, 0.9375f, 1.0625f}); break;
        case 2: case 3: kind = side == 'S' ? 'W' : 'Q'; amt = r.PickOf({1.0f, 0.5f, 0.25f, 0.9375f, 1.0625f}); break;
        case 4: {
          kind = 'b';
          const float u = c.base_unit > 0 ? c.base_unit : 0.01f;
          amt = u * r.PickOf({0.25f, 0.5f, 1.0f, 1.5f, 2.0f, 2.5f, 7.0f});
          break;
        }
        case 5: {
          kind = 'q';
          const float u = c.quote_unit > 0 ? c.quote_unit : 0.01f;
          amt = u * r.PickOf({0.25f, 0.5f, 1.0f, 1.5f, 3.0f, 10.0f, 100.0f, 64.5f});
          break;
        }
        case 6: kind = 'b'; amt = c.vol * a.v * r.PickOf({0.5f, 1.0f, 2.0f}); break;  // around the volume share
        case 7: kind = 'q'; amt = c.vol * a.v * a.c * r.PickOf({0.5f, 1.0f, 2.0f}); break;
        case 8: kind = 'b'; amt = style == 0 ? r.Range(1, 512) / 64.0f : 8 * r.Unit(); break;
        default: kind = 'q'; amt = style == 0 ? r.Range(1, 65536) / 64.0f : 1000 * r.Unit();
      }
      if (style == 0 && (kind == 'B' || kind == 'V' || kind == 'Q' || kind == 'W') && r.Chance(1, 2)) {
        // Whole balances stay exact; other fractions may not be, which is fine.
        amt = 1.0f;
      }
      if (!(amt > 0)) amt = 1;
      out->push_back(Fmt("q %d %d %c %c %c %s %c %s", idx, k, type, side, kind, Fl(amt).c_str(), pk, Fl(price).c_str()));
    }
  }
}

string GenBuiltin(Rng& r, const string& name) {
  if (r.Chance(1, 2))
    return "e " + name + " reb " + Fl(r.PickOf({0.1f, 0.3f, 0.5f, 0.7f, 0.9f, 0.95f, 0.05f})) + " " + Fl(r.PickOf({0.01f, 0.05f, 0.1f, 0.2f, 0.001f}));
  return "e " + name + " stop " + Fl(r.PickOf({0.05f, 0.1f, 0.2f, 0.01f})) + " " + Fl(r.PickOf({0.05f, 0.1f, 0.02f})) + " " +
         Fl(r.PickOf({0.01f, 0.05f, 0.1f, 0.5f})) + " " + Fl(r.PickOf({0.01f, 0.05f, 0.1f, 0.5f}));
}

// ---------------------------------------------------------------- schedules
void GenSched(Rng& r, Lines* out, bool guided) {
  const int seed = r.Range(1, 1 << 30);
  switch (r.Below(guided ? 7 : 3)) {
    case 0: out->push_back(Fmt("sched random %d %d", seed, r.PickOf({20, 200, 2000, 20000, 100000}))); break;
    case 1: out->push_back(Fmt("sched pct %d %d", seed, r.PickOf({1, 2, 4, 8}))); break;
    case 2: out->push_back("sched serial 0 0"); break;
    default: out->push_back(Fmt("sched conflict %d %d", seed, r.PickOf({1, 2, 4, 16, 64}))); break;
  }
  if (r.Chance(1, 5)) {
    if (r.Chance(1, 2))
      out->push_back(Fmt("tfail %d", (int)r.Below(6)));
    else
      out->push_back(Fmt("tfailall %d", (int)r.Below(6)));
  }
}
string SchedMode(const Lines& in) {
  for (const string& s : in) {
    vector<string> w = Words(s);
    if (w.size() == 4 && w[0] == "sched") return w[1];
  }
  return "serial";
}
void ApplySched(const Lines& in, uint64_t accesses) {
  ExecCfg& c = g_sh->cfg;
  c.nsw = 0;
  for (const string& s : in) {
    if (s.compare(0, 2, "sw") && s.compare(0, 5, "sched") && s.compare(0, 5, "tfail")) continue;
    vector<string> w = Words(s);
    if (w[0] == "sched" && w.size() == 4) {
      const uint64_t seed = strtoull(w[2].c_str(), nullptr, 10);
      const int n = atoi(w[3].c_str());
      c.sched_seed = seed;
      if (w[1] == "random") c.sched_mode = SM_RANDOM, c.sched_rate = n;
      if (w[1] == "conflict") c.sched_mode = SM_CONFLICT, c.sched_rate = n;
      if (w[1] == "serial") c.sched_mode = SM_SERIAL;
      if (w[1] == "explicit") c.sched_mode = SM_EXPLICIT;
      if (w[1] == "pct") {
        c.sched_mode = SM_PCT;
        SplitMix g(seed);
        vector<uint64_t> at;
        for (int i = 0; i < n && i < 16; ++i) at.push_back(1 + g.Below(accesses ? accesses : 200000));
        std::sort(at.begin(), at.end());
        c.npct = at.size();
        for (size_t i = 0; i < at.size(); ++i) c.pct_at[i] = at[i];
      }
    } else if (w[0] == "sw" && w.size() == 4 && c.nsw < kMaxSwitch) {
      c.sw[c.nsw++] = SwitchPoint{strtoull(w[1].c_str(), nullptr, 10), atoi(w[2].c_str()), atoi(w[3].c_str())};
    } else if (w[0] == "tfail" && w.size() == 2) {
      const int i = atoi(w[1].c_str());
      if (i >= 0 && i < 64) c.thread_fail_mask |= 1ULL << i;
    } else if (w[0] == "tfailall" && w.size() == 2) {
      c.thread_fail_all = atoi(w[1].c_str());
    }
  }
}
static vector<SwitchPoint> g_rec;
static bool g_rec_overflow;
void SaveSched() {
  g_rec.assign(g_sh->res.rec, g_sh->res.rec + std::min<int>(g_sh->res.nrec, kMaxSwitch));
  g_rec_overflow = g_sh->res.rec_overflow;
}
Lines ConcretiseSched(Check* c, const Lines& in) {
  const string mode = SchedMode(in);
  if (mode == "serial" || mode == "explicit") return in;
  g_rec.clear();
  g_rec_overflow = false;
  RunInfo ri;
  RunScenario(c, in, &ri);
  if (g_rec_overflow) return in;
  Lines out;
  for (const string& s : in)
    if (s.compare(0, 6, "sched ") != 0 && s.compare(0, 3, "sw ") != 0) out.push_back(s);
  out.push_back("sched explicit 0 0");
  for (const SwitchPoint& p : g_rec) out.push_back(Fmt("sw %llu %d %d", (unsigned long long)p.at, p.tid, p.is_pick));
  return out;
}

// ---------------------------------------------------------------- the program
void StoreHistory(const vector<Ohlc>& t, const vector<Side>& s) {
  DiskPut("/sim/t.hist", Gzip(EncodeRaw(t), 1));
  if (!s.empty()) DiskPut("/sim/s.hist", Gzip(EncodeRaw(s), 1));
}
vector<string> TraderArgs(bool side, const vector<string>& more) {
  vector<string> a = {"trader", "--input_ohlc_history_delimited_proto_file=/sim/t.hist"};
  if (side) a.push_back("--input_side_history_delimited_proto_file=/sim/s.hist");
  for (const string& s : more) a.push_back(s);
  return a;
}
string LogX(const Ev& e) {
  string s = Fmt("%lld,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,%.3f,", (long long)e.t.ts, e.t.o, e.t.h, e.t.l, e.t.c, e.t.v, e.base, e.quote, e.fee);
  if (e.k == 'X') return s + ",,,,";
  s += e.o.type == 'M' ? "MARKET" : e.o.type == 'S' ? "STOP" : "LIMIT";
  s += e.o.side == 'B' ? ",BUY," : ",SELL,";
  s += e.o.base ? Fmt("%.3f,,", e.o.amt) : Fmt(",%.3f,", e.o.amt);
  if (e.o.has_price) s += Fmt("%.3f", e.o.price);
  return s;
}

}  // namespace sim
