// Runs of the backtest engine: scenarios, recorded histories, reference models.
#pragma once
#include "model.h"

namespace sim {

struct OrderT {
  char type = '?', side = '?';
  bool base = true;
  float amt = 0;
  bool has_price = false;
  float price = 0;
};
bool Same(const OrderT& a, const OrderT& b);
string Text(const OrderT& o);

// One event of the recorded history (see the adapter).
struct Ev {
  char k = 0;  // N X F U E T Y P R B K S g x k p i
  Ohlc t;
  float base = 0, quote = 0, fee = 0;
  OrderT o;
  vector<float> sig;
  int nord = 0;
  string raw;
  vector<string> w;
};
vector<Ev> ParseTrace(const string& trace);

// The events of one window (one strategy instance), in order; then results.
struct Session {
  vector<Ev> ev;  // X F U E T K
  Ev y;           // exec result, if any
};
struct Eval {
  vector<Session> sessions;
  vector<Ev> periods;
  Ev result;
  bool has_result = false, ended = false;
};
Eval ParseEval(const string& trace);

struct FeeCfg {
  float rel = 0.005f, fix = 0, min = 0;
};
struct AccCfg {
  float start_base = 1, start_quote = 0, base_unit = 0.00001f, quote_unit = 0.01f;
  FeeCfg m, l, s;
  float liq = 0.5f, vol = 0.5f;
  static AccCfg From(const Opts& o);
  const FeeCfg& Fee(char type) const { return type == 'M' ? m : type == 'L' ? l : s; }
};
vector<Ohlc> TickLines(const Lines& in);
vector<Side> SideLines(const Lines& in);
string Join(const Lines& in);
string TickLine(const Ohlc& t);
string SideLine(const Side& s);

// Interval arithmetic over the engine's float arithmetic: a result that is exactly
// representable from exact operands stays a point, anything else is widened by a few ulps.
struct Iv {
  double lo = 0, hi = 0;
  Iv() {}
  Iv(double x) : lo(x), hi(x) {}
  Iv(double a, double b) : lo(a), hi(b) {}
  bool Point() const { return lo == hi; }
  bool Has(double x) const { return x >= lo && x <= hi; }
};
Iv Add(Iv a, Iv b);
Iv Sub(Iv a, Iv b);
Iv Mul(Iv a, Iv b);
Iv Div(Iv a, Iv b);  // positive divisor
inline Iv Min(Iv a, Iv b) { return Iv(std::min(a.lo, b.lo), std::min(a.hi, b.hi)); }
inline Iv Max(Iv a, Iv b) { return Iv(std::max(a.lo, b.lo), std::max(a.hi, b.hi)); }
enum Tri { NO, MAYBE, YES };
Tri Less(Iv a, Iv b);    // a < b
Tri LessEq(Iv a, Iv b);  // a <= b

// What an order must do.
struct Decision {
  Tri exec = NO;
  Iv base;   // units of base moved (values, if the unit is zero)
  Iv price;
};
Decision Decide(const AccCfg& c, const OrderT& o, const Ohlc& t, float base_balance, float quote_balance);
Iv FeeIv(const AccCfg& c, char type, Iv quote);  // in quote units, argument too

// Follows the recorded history of one window. The first problem of every category.
struct Findings {
  string structure, ledger, decision;
  uint64_t executed = 0, rejected = 0, ambiguous = 0, carried = 0, capped = 0, ticks = 0, updates = 0;
};
Findings Follow(const AccCfg& c, const Ohlc* ticks, size_t n, const Session& s);

// The latest side record at or before ts, -1 if none.
int SideIndex(const vector<Side>& side, int64_t ts);

// Evaluation windows.
struct Window {
  int64_t start, end;
  size_t lo, hi;  // ticks
};
vector<Window> ModelWindows(const vector<Ohlc>& t, int64_t start, int64_t end, int months);

// Generators.
struct EngGen {
  int style = 0;         // account: 0 dyadic (exact), 1 decimal, 2 zero units
  bool flat = false;     // most ticks have a single price
  bool side = false;
  int max_ticks = 120;
  bool long_gaps = false;
  int outage = 0;    // one history in this many has an outage of hundreds or thousands of ticks
  int mass = 0;      // one history in this many has thousands of ticks
  bool full = false;  // always of full length, few outages
};
void GenAccount(Rng& r, int style, Lines* out);
vector<Ohlc> GenEngTicks(Rng& r, const EngGen& g);
vector<Side> GenEngSide(Rng& r, const vector<Ohlc>& ticks);
// Scripted orders of emitter `idx`, aimed at the ticks that follow.
void GenOrders(Rng& r, const vector<Ohlc>& ticks, int style, const Opts& o, int idx, Lines* out);
// An "e" line of a built-in strategy with random parameters.
string GenBuiltin(Rng& r, const string& name);

// Thread schedules as scenario lines: "sched random|pct|conflict|serial|explicit SEED N",
// "sw AT TID PICK" (explicit), "tfail I" / "tfailall I" (thread creation fails).
void GenSched(Rng& r, Lines* out, bool guided);
string SchedMode(const Lines& in);
void ApplySched(const Lines& in, uint64_t accesses);  // accesses: length of an earlier run
void SaveSched();                                     // after the concurrent execution
Lines ConcretiseSched(Check* c, const Lines& in);

// The backtester as a program.
void StoreHistory(const vector<Ohlc>& t, const vector<Side>& s);  // /sim/t.hist, /sim/s.hist
vector<string> TraderArgs(bool side, const vector<string>& more);
string LogX(const Ev& e);  // row of the exchange log for an X or F event
// One full evaluation, checked against the windows model ("" or what is wrong).
string CheckResults(const AccCfg& c, const vector<Ohlc>& t, const vector<Window>& w, const Eval& e, bool fast);

}  // namespace sim
