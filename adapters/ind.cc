// Drives the repository's streaming indicators: several instances, each fed by its own
// thread (or all by one), recording every value after every delivery.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "base/base.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/volatility.h"

extern "C" {
void sim_trace(const char* data, size_t n);
const char* sim_scenario(size_t* n);
}
using namespace trader;

namespace {
void F(std::string& s, float f) {
  char b[64];
  if (std::isnan(f)) {
    s += " nan";
    return;
  }
  snprintf(b, sizeof b, " %.9g", f);
  s += b;
}
void I(std::string& s, long long v) {
  char b[32];
  snprintf(b, sizeof b, " %lld", v);
  s += b;
}
struct Spec {
  std::string kind;
  std::vector<double> p;
};
struct Delivery {
  OhlcTick t;
  float base, quote;
};

void RunOne(const Spec& sp, const std::vector<Delivery>& ds, std::string& out) {
  const int n = sp.p.empty() ? 3 : (int)sp.p[0];
  const int period = (int)sp.p.back();
  if (sp.kind == "sma") {
    SimpleMovingAverage x(n, period);
    for (const auto& d : ds) {
      x.Update(d.t);
      F(out, x.GetSimpleMovingAverage());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "ema") {
    ExponentialMovingAverage x(sp.p[1], n, period);
    for (const auto& d : ds) {
      x.Update(d.t);
      F(out, x.GetExponentialMovingAverage());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "macd") {
    MovingAverageConvergenceDivergence x(n, (int)sp.p[1], (int)sp.p[2], period);
    for (const auto& d : ds) {
      x.Update(d.t);
      F(out, x.GetFastExponentialMovingAverage());
      F(out, x.GetSlowExponentialMovingAverage());
      F(out, x.GetMACDSeries());
      F(out, x.GetMACDSignal());
      F(out, x.GetDivergence());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "rsi") {
    RelativeStrengthIndex x(n, period);
    for (const auto& d : ds) {
      x.Update(d.t);
      F(out, x.GetUpwardChangeModifiedMovingAverage());
      F(out, x.GetDownwardChangeModifiedMovingAverage());
      F(out, x.GetRelativeStrengthIndex());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "so") {
    StochasticOscillator x(n, period);
    for (const auto& d : ds) {
      x.Update(d.t);
      F(out, x.GetLow());
      F(out, x.GetHigh());
      F(out, x.GetK());
      F(out, x.GetFastD());
      F(out, x.GetSlowD());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "vol") {
    Volatility x(n, period);
    for (const auto& d : ds) {
      x.Update(d.t, d.base, d.quote);
      F(out, x.GetVolatility());
      I(out, x.GetNumOhlcTicks());
      out += "\n";
    }
  } else if (sp.kind == "last") {
    LastNOhlcTicks x(n, period);
    for (const auto& d : ds) {
      x.Update(d.t);
      for (const auto& t : x.GetLastNOhlcTicks()) {
        I(out, t.timestamp_sec());
        F(out, t.open());
        F(out, t.high());
        F(out, t.low());
        F(out, t.close());
        F(out, t.volume());
      }
      out += "\n";
    }
  }
}
}  // namespace

extern "C" int sim_main(int, char**) {
  size_t n = 0;
  const char* raw = sim_scenario(&n);
  std::vector<char> text(raw, raw + n);
  text.push_back('\n');
  text.push_back(0);
  std::vector<Spec> specs;
  std::vector<Delivery> ds;
  bool threads = false;
  for (char* p = text.data(); *p;) {
    char* e = strchr(p, '\n');
    *e = 0;
    std::vector<char*> w;
    char* save = nullptr;
    for (char* t = strtok_r(p, " ", &save); t; t = strtok_r(nullptr, " ", &save)) w.push_back(t);
    p = e + 1;
    if (w.empty()) continue;
    const std::string op = w[0];
    if (op == "o" && w.size() >= 3 && std::string(w[1]) == "threads") threads = atoi(w[2]);
    if (op == "n" && w.size() >= 3) {
      specs.emplace_back();
      specs.back().kind = w[1];
      for (size_t i = 2; i < w.size(); ++i) specs.back().p.push_back(strtod(w[i], nullptr));
    }
    if (op == "k" && w.size() >= 9) {
      ds.emplace_back();
      OhlcTick& t = ds.back().t;
      t.set_timestamp_sec(strtoll(w[1], nullptr, 10));
      t.set_open(strtof(w[2], nullptr));
      t.set_high(strtof(w[3], nullptr));
      t.set_low(strtof(w[4], nullptr));
      t.set_close(strtof(w[5], nullptr));
      t.set_volume(strtof(w[6], nullptr));
      ds.back().base = strtof(w[7], nullptr);
      ds.back().quote = strtof(w[8], nullptr);
    }
  }
  std::vector<std::string> outs(specs.size());
  if (threads) {
    std::vector<std::thread> th;
    for (size_t i = 0; i < specs.size(); ++i) th.emplace_back([&, i] { RunOne(specs[i], ds, outs[i]); });
    for (auto& t : th) t.join();
  } else {
    for (size_t i = 0; i < specs.size(); ++i) RunOne(specs[i], ds, outs[i]);
  }
  std::string out;
  for (size_t i = 0; i < specs.size(); ++i) {
    out += "B\n";
    out += outs[i];
  }
  out += "END\n";
  sim_trace(out.data(), out.size());
  return 0;
}
