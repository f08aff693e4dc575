// Drives the repository's engine (evaluation, account, side input, strategies,
// history processing, proto files) through its public API and records what it does.
// Scenario lines are documented in src/scenario.h.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "base/account.h"
#include "base/base.h"
#include "base/history.h"
#include "base/side_input.h"
#include "base/trader.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "logging/logger.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
#include "util/proto.h"
#include "util/time.h"

extern "C" {
void sim_trace(const char* data, size_t n);
const char* sim_scenario(size_t* n);
}

using namespace trader;

namespace {
void Put(std::string& s, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void Put(std::string& s, const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  s.append(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
}
void F(std::string& s, float f) {
  if (std::isnan(f))
    s += " nan";
  else
    Put(s, " %.9g", f);
}
void PutTick(std::string& s, const OhlcTick& t) {
  Put(s, " %lld", (long long)t.timestamp_sec());
  F(s, t.open());
  F(s, t.high());
  F(s, t.low());
  F(s, t.close());
  F(s, t.volume());
}
void PutOrder(std::string& s, const Order& o) {
  Put(s, " %c%c ", o.has_type() ? "MSL"[o.type()] : '?', o.has_side() ? "BS"[o.side()] : '?');
  if (o.oneof_amount_case() == Order::kBaseAmount) {
    s += "b";
    F(s, o.base_amount());
  } else if (o.oneof_amount_case() == Order::kQuoteAmount) {
    s += "q";
    F(s, o.quote_amount());
  } else {
    s += "- 0";
  }
  if (o.has_price())
    F(s, o.price());
  else
    s += " -";
}

struct OrderSpec {
  int k;
  char type, side, kind, pkind;
  float amt, price;
};
struct EmitterSpec {
  std::string name, kind;
  std::vector<float> p;
  std::vector<OrderSpec> orders;
};

// Trace sink of one emitter / session.
struct Sink {
  std::string s;
  int instances = 0;
};

// Strategy that emits the scripted orders; everything it is shown is recorded.
class ScriptTrader : public Trader {
 public:
  ScriptTrader(const EmitterSpec* spec) : spec_(spec) {}
  void Update(const OhlcTick& t, const std::vector<float>& sig, float base, float quote,
              std::vector<Order>& orders) override {
    for (; pos_ < spec_->orders.size() && spec_->orders[pos_].k <= k_; ++pos_) {
      const OrderSpec& o = spec_->orders[pos_];
      if (o.k < k_) continue;
      float amt = o.amt;
      bool is_base = true;
      switch (o.kind) {
        case 'b': break;
        case 'q': is_base = false; break;
        case 'B': amt = o.amt * base; break;
        case 'Q': amt = o.amt * quote; is_base = false; break;
        case 'V': amt = o.amt * quote / t.close(); break;
        case 'W': amt = o.amt * base * t.close(); is_base = false; break;
      }
      float price = o.pkind == 'r' ? o.price * t.close() : o.price;
      if (!(amt > 0)) continue;
      if (o.type != 'M' && !(price > 0)) continue;
      orders.emplace_back();
      Order& x = orders.back();
      x.set_type(o.type == 'M' ? Order::MARKET : o.type == 'S' ? Order::STOP : Order::LIMIT);
      x.set_side(o.side == 'B' ? Order::BUY : Order::SELL);
      if (is_base)
        x.set_base_amount(amt);
      else
        x.set_quote_amount(amt);
      if (o.pkind != '-') x.set_price(price);
    }
    ++k_;
    // A little strategy state that depends on everything it was shown.
    acc_ = acc_ * 0.5f + t.close() + base + quote;
    for (float x : sig) acc_ += x;
  }
  std::string GetInternalState() const override {
    char b[96];
    snprintf(b, sizeof b, "%d,%.6g", k_, acc_);
    return b;
  }

 private:
  const EmitterSpec* spec_;
  size_t pos_ = 0;
  int k_ = 0;
  float acc_ = 0;
};

class ProxyTrader : public Trader {
 public:
  ProxyTrader(std::unique_ptr<Trader> t, Sink* sink) : t_(std::move(t)), sink_(sink) {
    if (sink_) {
      Put(sink_->s, "N %d\n", sink_->instances++);
    }
  }
  void Update(const OhlcTick& t, const std::vector<float>& sig, float base, float quote,
              std::vector<Order>& orders) override {
    if (sink_) {
      std::string& s = sink_->s;
      s += "U";
      PutTick(s, t);
      F(s, base);
      F(s, quote);
      Put(s, " %d", (int)sig.size());
      for (float x : sig) F(s, x);
      Put(s, " %d\n", (int)orders.size());  // orders handed over by the engine: must be empty
    }
    t_->Update(t, sig, base, quote, orders);
    if (sink_)
      for (const Order& o : orders) {
        sink_->s += "E";
        PutOrder(sink_->s, o);
        sink_->s += "\n";
      }
  }
  std::string GetInternalState() const override { return t_->GetInternalState(); }

 private:
  std::unique_ptr<Trader> t_;
  Sink* sink_;
};

class SimEmitter : public TraderEmitter {
 public:
  SimEmitter(const EmitterSpec* spec, Sink* sink) : spec_(spec), sink_(sink) {
    if (spec->kind == "reb") {
      RebalancingTraderConfig c;
      c.set_alpha(spec->p.at(0));
      c.set_epsilon(spec->p.at(1));
      inner_.reset(new RebalancingTraderEmitter(c));
    } else if (spec->kind == "stop") {
      StopTraderConfig c;
      c.set_stop_order_margin(spec->p.at(0));
      c.set_stop_order_move_margin(spec->p.at(1));
      c.set_stop_order_increase_per_day(spec->p.at(2));
      c.set_stop_order_decrease_per_day(spec->p.at(3));
      inner_.reset(new StopTraderEmitter(c));
    } else if (spec->kind == "fac") {
      inner_ = GetTrader(spec->name);
    }
  }
  std::string GetName() const override { return inner_ ? inner_->GetName() : spec_->name; }
  std::unique_ptr<Trader> NewTrader() const override {
    std::unique_ptr<Trader> t;
    if (inner_)
      t = inner_->NewTrader();
    else
      t.reset(new ScriptTrader(spec_));
    return std::unique_ptr<Trader>(new ProxyTrader(std::move(t), sink_));
  }

 private:
  const EmitterSpec* spec_;
  Sink* sink_;
  std::unique_ptr<TraderEmitter> inner_;
};

class RecLogger : public Logger {
 public:
  explicit RecLogger(Sink* sink) : sink_(sink) {}
  void LogExchangeState(const OhlcTick& t, const Account& a) override {
    sink_->s += "X";
    PutTick(sink_->s, t);
    Acc(a);
    sink_->s += "\n";
  }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override {
    sink_->s += "F";
    PutTick(sink_->s, t);
    Acc(a);
    PutOrder(sink_->s, o);
    sink_->s += "\n";
  }
  void LogTraderState(absl::string_view st) override {
    sink_->s += "T ";
    sink_->s.append(st.data(), st.size());
    sink_->s += "\n";
  }

 private:
  void Acc(const Account& a) {
    F(sink_->s, a.base_balance);
    F(sink_->s, a.quote_balance);
    F(sink_->s, a.total_fee);
  }
  Sink* sink_;
};

void PutExec(std::string& s, const ExecutionResult& r) {
  F(s, r.start_base_balance());
  F(s, r.start_quote_balance());
  F(s, r.end_base_balance());
  F(s, r.end_quote_balance());
  F(s, r.start_price());
  F(s, r.end_price());
  F(s, r.start_value());
  F(s, r.end_value());
  Put(s, " %d", r.total_executed_orders());
  F(s, r.total_fee());
  F(s, r.base_volatility());
  F(s, r.trader_volatility());
}
void PutEval(std::string& s, const EvaluationResult& r) {
  for (const auto& p : r.period()) {
    Put(s, "P %lld %lld", (long long)p.start_timestamp_sec(), (long long)p.end_timestamp_sec());
    PutExec(s, p.result());
    F(s, p.final_gain());
    F(s, p.base_final_gain());
    s += "\n";
  }
  Put(s, "R %s", r.name().c_str());
  F(s, r.score());
  F(s, r.avg_gain());
  F(s, r.avg_base_gain());
  F(s, r.avg_total_executed_orders());
  F(s, r.avg_total_fee());
  Put(s, " %lld %lld %d", (long long)r.eval_config().start_timestamp_sec(),
      (long long)r.eval_config().end_timestamp_sec(), r.eval_config().evaluation_period_months());
  s += "\n";
}

struct Line {
  std::vector<const char*> w;
};
}  // namespace

extern "C" int sim_main(int, char**) {
  size_t n = 0;
  const char* raw = sim_scenario(&n);
  std::vector<char> text(raw, raw + n);
  text.push_back('\n');
  text.push_back(0);
  std::map<std::string, std::string> opt;
  OhlcHistory hist;
  std::vector<std::pair<float, float>> bal;
  SideHistory side;
  PriceHistory prices;
  std::vector<EmitterSpec> specs;
  std::vector<std::string> times;
  auto num = [&](const char* k, double d) {
    auto it = opt.find(k);
    return it == opt.end() ? d : strtod(it->second.c_str(), nullptr);
  };
  auto fnum = [&](const char* k, float d) {
    auto it = opt.find(k);
    return it == opt.end() ? d : strtof(it->second.c_str(), nullptr);
  };
  auto inum = [&](const char* k, long long d) {
    auto it = opt.find(k);
    return it == opt.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
  };
  auto str = [&](const char* k, const char* d) {
    auto it = opt.find(k);
    return it == opt.end() ? std::string(d) : it->second;
  };
  (void)num;
  for (char* p = text.data(); *p;) {
    char* e = strchr(p, '\n');
    *e = 0;
    std::vector<char*> w;
    char* save = nullptr;
    for (char* t = strtok_r(p, " ", &save); t; t = strtok_r(nullptr, " ", &save)) w.push_back(t);
    p = e + 1;
    if (w.empty()) continue;
    const std::string op = w[0];
    if (op == "o" && w.size() >= 3) {
      opt[w[1]] = w[2];
    } else if (op == "time" || op == "when") {
      std::string s;
      for (size_t i = 1; i < w.size(); ++i) s += (i > 1 ? " " : "") + std::string(w[i]);
      times.push_back((op == "time" ? "t" : "w") + s);
    } else if (op == "k" && w.size() >= 7) {
      hist.emplace_back();
      OhlcTick& t = hist.back();
      t.set_timestamp_sec(strtoll(w[1], nullptr, 10));
      t.set_open(strtof(w[2], nullptr));
      t.set_high(strtof(w[3], nullptr));
      t.set_low(strtof(w[4], nullptr));
      t.set_close(strtof(w[5], nullptr));
      t.set_volume(strtof(w[6], nullptr));
      bal.emplace_back(w.size() >= 9 ? strtof(w[7], nullptr) : -1.0f, w.size() >= 9 ? strtof(w[8], nullptr) : -1.0f);
    } else if (op == "i" && w.size() >= 2) {
      side.emplace_back();
      side.back().set_timestamp_sec(strtoll(w[1], nullptr, 10));
      for (size_t i = 2; i < w.size(); ++i) side.back().add_signal(strtof(w[i], nullptr));
    } else if (op == "p" && w.size() >= 4) {
      prices.emplace_back();
      prices.back().set_timestamp_sec(strtoll(w[1], nullptr, 10));
      prices.back().set_price(strtof(w[2], nullptr));
      prices.back().set_volume(strtof(w[3], nullptr));
    } else if (op == "e" && w.size() >= 3) {
      specs.emplace_back();
      specs.back().name = w[1];
      specs.back().kind = w[2];
      for (size_t i = 3; i < w.size(); ++i) specs.back().p.push_back(strtof(w[i], nullptr));
    } else if (op == "q" && w.size() >= 9) {
      size_t i = strtoul(w[1], nullptr, 10);
      if (i < specs.size())
        specs[i].orders.push_back(OrderSpec{atoi(w[2]), w[3][0], w[4][0], w[5][0], w[7][0],
                                            strtof(w[6], nullptr), strtof(w[8], nullptr)});
    }
  }
  const std::string mode = str("mode", "exec");
  std::string out;

  AccountConfig ac;
  ac.set_start_base_balance(fnum("start_base", 1));
  ac.set_start_quote_balance(fnum("start_quote", 0));
  ac.set_base_unit(fnum("base_unit", 0.00001f));
  ac.set_quote_unit(fnum("quote_unit", 0.01f));
  struct {
    const char* p;
    FeeConfig* f;
  } fees[] = {{"m", ac.mutable_market_order_fee_config()},
              {"l", ac.mutable_limit_order_fee_config()},
              {"s", ac.mutable_stop_order_fee_config()}};
  for (auto& f : fees) {
    f.f->set_relative_fee(fnum((std::string(f.p) + "fee_rel").c_str(), 0.005f));
    f.f->set_fixed_fee(fnum((std::string(f.p) + "fee_fix").c_str(), 0));
    f.f->set_minimum_fee(fnum((std::string(f.p) + "fee_min").c_str(), 0));
  }
  ac.set_market_liquidity(fnum("liq", 0.5f));
  ac.set_max_volume_ratio(fnum("vol", 0.5f));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(inum("start", 0));
  ec.set_end_timestamp_sec(inum("end", 0));
  ec.set_evaluation_period_months(inum("months", 0));
  ec.set_fast_eval(inum("fast", 0));
  std::unique_ptr<SideInput> si;
  if (!side.empty()) si.reset(new SideInput(side));
  std::vector<std::unique_ptr<Sink>> sinks;
  std::vector<std::unique_ptr<TraderEmitter>> emitters;
  if (mode == "facbatch") {
    emitters = GetBatchOfTraders(str("factory", "stop"));
  } else {
    for (const EmitterSpec& sp : specs) {
      sinks.emplace_back(new Sink);
      emitters.emplace_back(new SimEmitter(&sp, inum("trace", 1) ? sinks.back().get() : nullptr));
    }
  }
  long long lo = inum("lo", 0), hi = inum("hi", -1);
  if (hi < 0 || hi > (long long)hist.size()) hi = hist.size();
  if (lo > hi) lo = hi;
  const long long only = inum("only", -1);

  if (mode == "exec") {
    // One window, executed directly.
    const size_t i = only < 0 ? 0 : only;
    if (i < emitters.size()) {
      Sink* s = sinks[i].get();
      RecLogger lg(s);
      std::unique_ptr<Trader> t = emitters[i]->NewTrader();
      ExecutionResult r = ExecuteTrader(ac, hist.begin() + lo, hist.begin() + hi, si.get(), ec.fast_eval(), *t,
                                        inum("log", 1) ? &lg : nullptr);
      s->s += "Y";
      PutExec(s->s, r);
      s->s += "\n";
      out += s->s;
    }
  } else if (mode == "eval") {
    const size_t i = only < 0 ? 0 : only;
    if (i < emitters.size()) {
      Sink* s = sinks[i].get();
      RecLogger lg(s);
      EvaluationResult r =
          EvaluateTrader(ac, ec, hist, si.get(), *emitters[i], inum("log", 1) ? &lg : nullptr);
      PutEval(s->s, r);
      out += s->s;
    }
  } else if (mode == "alone" || mode == "batch" || mode == "facbatch") {
    // "alone": every emitter (or the one chosen) evaluated by itself, one after the other.
    if (mode == "alone" || (mode == "facbatch" && inum("alone", 0))) {
      for (size_t i = 0; i < emitters.size(); ++i) {
        if (only >= 0 && (size_t)only != i) continue;
        EvaluationResult r = EvaluateTrader(ac, ec, hist, si.get(), *emitters[i], nullptr);
        Put(out, "B %d\n", (int)i);
        PutEval(out, r);
        if (i < sinks.size()) out += sinks[i]->s;
      }
    } else {
      const int rounds = inum("rounds", 1);
      for (int k = 0; k < rounds; ++k) {
        std::vector<EvaluationResult> rs = EvaluateBatchOfTraders(ac, ec, hist, si.get(), emitters);
        for (size_t i = 0; i < rs.size(); ++i) {
          Put(out, "B %d\n", (int)i);
          PutEval(out, rs[i]);
          if (i < sinks.size()) {
            out += sinks[i]->s;
            sinks[i]->s.clear();
            sinks[i]->instances = 0;
          }
        }
      }
    }
  } else if (mode == "multi") {
    // One evaluation per emitter, each on its own thread with its own logger; history
    // and side input are shared.
    std::vector<std::thread> th;
    std::vector<std::string> res(emitters.size());
    for (size_t i = 0; i < emitters.size(); ++i) {
      auto work = [&, i] {
        RecLogger lg(sinks[i].get());
        EvaluationResult r = EvaluateTrader(ac, ec, hist, si.get(), *emitters[i], &lg);
        PutEval(sinks[i]->s, r);
      };
      bool started = false;
      try {
        th.emplace_back(work);
        started = true;
      } catch (const std::system_error&) {
      }
      if (!started) work();
    }
    for (auto& t : th) t.join();
    for (size_t i = 0; i < emitters.size(); ++i) {
      Put(out, "B %d\n", (int)i);
      out += sinks[i]->s;
    }
  } else if (mode == "ref") {
    // Reference executor over the real account: the orders emitted on every tick with
    // volume are those of the scenario.
    if (!specs.empty()) {
      Sink* s = sinks[0].get();
      RecLogger lg(s);
      Account acc;
      acc.InitAccount(ac);
      std::vector<Order> pending;
      size_t pos = 0;
      int k = 0;
      for (long long i = lo; i < hi; ++i) {
        lg.LogExchangeState(hist[i], acc);
        std::vector<Order> rest;
        for (const Order& o : pending) {
          if (acc.ExecuteOrder(ac, o, hist[i]))
            lg.LogExchangeState(hist[i], acc, o);
          else
            rest.push_back(o);
        }
        pending.swap(rest);
        if (hist[i].volume() == 0) continue;
        pending.clear();
        s->s += "K\n";
        for (; pos < specs[0].orders.size() && specs[0].orders[pos].k == k; ++pos) {
          const OrderSpec& o = specs[0].orders[pos];
          pending.emplace_back();
          Order& x = pending.back();
          x.set_type(o.type == 'M' ? Order::MARKET : o.type == 'S' ? Order::STOP : Order::LIMIT);
          x.set_side(o.side == 'B' ? Order::BUY : Order::SELL);
          if (o.kind == 'b')
            x.set_base_amount(o.amt);
          else
            x.set_quote_amount(o.amt);
          if (o.pkind != '-') x.set_price(o.price);
        }
        ++k;
      }
      out += s->s;
    }
  } else if (mode == "feed") {
    // The strategy alone: ticks and balances come from the scenario.
    if (!emitters.empty()) {
      std::unique_ptr<Trader> t = emitters[0]->NewTrader();
      std::vector<float> sig;
      std::vector<Order> orders;
      for (size_t i = 0; i < hist.size(); ++i) {
        orders.clear();
        t->Update(hist[i], sig, bal[i].first, bal[i].second, orders);
        sinks[0]->s += "T " + t->GetInternalState() + "\n";
      }
      out += sinks[0]->s;
    }
  } else if (mode == "load") {
    const std::string path = str("path", "/sim/in");
    const std::string type = str("type", "ohlc");
    auto fin = [&](const absl::Status& st) { Put(out, "STATUS %d\n", st.ok() ? 1 : 0); };
    if (type == "ohlc") {
      std::vector<OhlcTick> v;
      fin(ReadDelimitedMessagesFromFile<OhlcTick>(path, v));
      for (const auto& t : v) {
        out += "k";
        PutTick(out, t);
        out += "\n";
      }
    } else if (type == "price") {
      std::vector<PriceRecord> v;
      fin(ReadDelimitedMessagesFromFile<PriceRecord>(path, v));
      for (const auto& t : v) {
        Put(out, "p %lld", (long long)t.timestamp_sec());
        F(out, t.price());
        F(out, t.volume());
        out += "\n";
      }
    } else {
      std::vector<SideInputRecord> v;
      fin(ReadDelimitedMessagesFromFile<SideInputRecord>(path, v));
      for (const auto& t : v) {
        Put(out, "i %lld", (long long)t.timestamp_sec());
        for (float f : t.signal()) F(out, f);
        out += "\n";
      }
    }
  } else if (mode == "store") {
    const std::string path = str("path", "/sim/out");
    absl::Status st = absl::OkStatus();
    const bool compress = inum("compress", 1);
    if (!hist.empty())
      st = WriteDelimitedMessagesToFile(hist.begin(), hist.end(), path, compress);
    else if (!prices.empty())
      st = WriteDelimitedMessagesToFile(prices.begin(), prices.end(), path, compress);
    else
      st = WriteDelimitedMessagesToFile(side.begin(), side.end(), path, compress);
    Put(out, "STATUS %d\n", st.ok() ? 1 : 0);
  } else if (mode == "outliers") {
    std::vector<size_t> idx;
    PriceHistory v = RemoveOutliers(prices.begin(), prices.end(), fnum("dev", 0.05f), inum("noidx", 0) ? nullptr : &idx);
    for (const auto& t : v) {
      Put(out, "p %lld", (long long)t.timestamp_sec());
      F(out, t.price());
      F(out, t.volume());
      out += "\n";
    }
    for (size_t i : idx) Put(out, "x %d\n", (int)i);
  } else if (mode == "resample") {
    OhlcHistory v = Resample(prices.begin(), prices.end(), inum("rate", 300));
    for (const auto& t : v) {
      out += "k";
      PutTick(out, t);
      out += "\n";
    }
  } else if (mode == "gaps") {
    auto g = GetPriceHistoryGaps(prices.begin(), prices.end(), inum("start", 0), inum("end", 0), inum("top", 10));
    for (const auto& x : g) Put(out, "g %lld %lld\n", (long long)x.first, (long long)x.second);
  } else if (mode == "time") {
    // "time TEXT": the instant it is parsed to; "when SEC NANOSEC": how it is printed
    for (const auto& l : times) {
      if (l[0] == 't') {
        auto t = ParseTime(l.substr(1));
        if (t.ok())
          Put(out, "T %lld %lld\n", (long long)absl::ToUnixSeconds(*t), (long long)absl::ToInt64Nanoseconds(*t - absl::FromUnixSeconds(absl::ToUnixSeconds(*t))));
        else
          out += "T -\n";
      } else {
        long long s = 0, n = 0;
        sscanf(l.c_str() + 1, "%lld %lld", &s, &n);
        out += "F " + FormatTimeUTC(absl::FromUnixSeconds(s) + absl::Nanoseconds(n)) + "\n";
      }
    }
  }
  out += "END\n";
  sim_trace(out.data(), out.size());
  return 0;
}
