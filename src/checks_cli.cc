// C23: calls that contradict themselves or ask for the impossible.
#include <cmath>

#include "conv.h"
#include "eng.h"

namespace sim {
namespace {

const char kReal[] = "real: convert.cc, trader.cc, base/, eval/, traders/, logging/, util/, protobuf, zlib, abseil, libstdc++ streams";
const char kStub[] = "stub: disk and file system calls (in-memory simulated disk), clock, time zone, CPU count, allocator results";

class C23 : public Check {
 public:
  C23() {
    id = "C23";
    rule = "a valid call of the converter or the backtester with zero, one or two mistakes in it (no, missing or several inputs, malformed times, "
           "impossible sampling rate, portfolio or evaluation period, unknown strategy, logs for several periods), with or without earlier "
           "files at the output paths, under split and failing reads; non-trivial: a mistake is made";
    components = {kReal, kStub};
    state_measure = "distinct (call, files in the way, outcome)";
    targets = {TG_CONVERT, TG_TRADER};
    quick_runs = 30000;
    thorough_runs = 150000;
  }
  void Generate(Rng& r, Lines& out) override {
    const bool trader = r.Chance(1, 2);
    out.push_back(string("o program ") + (trader ? "trader" : "convert"));
    out.push_back(Fmt("o seed %d", (int)r.Below(1000000)));
    out.push_back(Fmt("o old %d", (int)r.Below(4)));
    if (trader) {
      out.push_back(string("o trader ") + r.PickOf({"stop", "rebalancing"}));
      const int mode = r.Below(5);
      if (mode == 0) out.push_back("o batch 1");
      if (mode == 1) out.push_back("o months " + string(r.PickOf({"1", "3", "12"})));
      if (mode != 1) out.push_back(Fmt("o logs %d", (int)r.Below(4)));
      if (r.Chance(1, 2)) out.push_back("o side 1");
    } else {
      out.push_back(string("o kind ") + r.PickOf({"pc", "pp", "oc", "op", "sc"}));
    }
    const int nbad = r.PickOf({0, 1, 1, 1, 1, 2});
    for (int i = 0; i < nbad; ++i) {
      string b;
      const string badtime = r.PickOf({"2017", "2017-13-01", "2017-02-30", "2017-01-01 25:00:00", "yesterday", "01/02/2017", "2017-01-01 00:61:00", "now",
                                       "1500000000", "2017-01-01 x", "", "2017-00-10", "2017-01-32", "-", "2019-02-29", "2017-01-01 10:00:00 Z1"});
      if (r.Chance(1, 4)) {
        b = string(r.PickOf({"start_time=", "end_time="})) + badtime;
      } else if (trader) {
        switch (r.Below(9)) {
          case 0: b = "trader=" + string(r.PickOf({"foo", "", "Stop", "stop2", "sto", "rebalance", "STOP", "stop,rebalancing", "rebalancing2"})); break;
          case 1: b = "evaluation_period_months=" + string(r.PickOf({"-1", "-2", "-12", "-2147483648", "-1000"})); break;
          case 2: b = "start_base_balance=" + string(r.PickOf({"-1", "nan", "inf", "-inf", "1e300", "-1e-5"})); break;
          case 3: b = "start_quote_balance=" + string(r.PickOf({"-1", "nan", "inf", "-inf", "1e300", "-1e-5"})); break;
          case 4: b = "empty_portfolio"; break;
          case 5: b = "no_input"; break;
          case 6: b = "missing_side"; break;
          case 7: b = Fmt("logs_of_periods_%d", (int)r.Range(1, 3)); break;
          case 8: b = "missing_input"; break;
        }
      } else {
        switch (r.Below(5)) {
          case 0: b = "sampling_rate_sec=" + string(r.PickOf({"0", "-1", "-300", "-2147483648"})); break;
          case 1: b = "no_input"; break;
          case 2: b = "missing_input"; break;
          default: b = "second_input_" + string(r.PickOf({"pc", "pp", "oc", "op", "sc"}));
        }
      }
      out.push_back("bad " + b);
    }
    if (r.Chance(1, 2)) GenSoftEnv(r, "R", &out, true, 1);
    if (nbad && r.Chance(1, 4)) out.push_back(FaultLine("R", r.PickOf<int>({OP_READ, OP_OPEN}), 0, r.Chance(1, 2) ? FK_EIO : FK_OPENFAIL, 2, "in"));
  }
  Outcome Run(const Lines& in) override {
    Outcome out;
    Opts o(in);
    const bool trader = o.S("program") == "trader";
    Rng r(o.I("seed", 1));
    // The files of a valid call. All five inputs exist.
    FeedCfg f;
    f.n = 40;
    vector<Price> p = GenTrades(r, f);
    vector<Ohlc> k = RandomOhlc(r, 30);
    vector<Side> s = RandomSide(r, 10, k.front().ts);
    for (auto& x : s) x.s.resize(std::min<size_t>(x.s.size(), 3));
    static const std::map<string, std::pair<string, string>> inputs = {
        {"pc", {"input_price_history_csv_file", "/sim/in_p.csv"}}, {"pp", {"input_price_history_delimited_proto_file", "/sim/in_p.pb"}},
        {"oc", {"input_ohlc_history_csv_file", "/sim/in_o.csv"}}, {"op", {"input_ohlc_history_delimited_proto_file", "/sim/in_o.pb"}},
        {"sc", {"input_side_history_csv_file", "/sim/in_s.csv"}}};
    string csv;
    for (auto& t : p) csv += Row(t) + "\n";
    DiskPut("/sim/in_p.csv", csv), csv.clear();
    for (auto& t : k) csv += Row(t) + "\n";
    DiskPut("/sim/in_o.csv", csv), csv.clear();
    for (auto& t : s) csv += Row(t) + "\n";
    DiskPut("/sim/in_s.csv", csv);
    DiskPut("/sim/in_p.pb", Gzip(EncodeRaw(p), 6));
    DiskPut("/sim/in_o.pb", Gzip(EncodeRaw(k), 6));
    DiskPut("/sim/in_s.pb", Gzip(EncodeRaw(s), 6));
    const int old = o.I("old", 0);
    const vector<string> outs = {kOutP, kOutO, kOutS, "/sim/x.csv", "/sim/t.csv"};
    if (old)
      for (size_t i = 0; i < outs.size(); ++i)
        if (old == 1 || r.Chance(1, 2)) DiskPut(outs[i], old == 3 ? "" : Fmt("earlier contents of %s\n", outs[i].c_str()));
    const DiskImage disk0 = SaveDisk();

    std::map<string, string> flag;  // later mistakes replace earlier ones of the same flag
    vector<string> bad;
    if (trader) {
      flag["input_ohlc_history_delimited_proto_file"] = "/sim/in_o.pb";
      if (o.I("side", 0)) flag["input_side_history_delimited_proto_file"] = "/sim/in_s.pb";
      flag["trader"] = o.S("trader", "stop");
      if (o.I("batch", 0)) flag["evaluate_batch"] = "true";
      if (o.I("months", 0) > 0) flag["evaluation_period_months"] = o.S("months");
      const int logs = o.I("months", 0) > 0 ? 0 : o.I("logs", 0);
      if (logs & 1) flag["output_exchange_log_file"] = "/sim/x.csv";
      if (logs & 2) flag["output_trader_log_file"] = "/sim/t.csv";
    } else {
      auto it = inputs.find(o.S("kind", "pc"));
      if (it == inputs.end()) it = inputs.find("pc");
      flag[it->second.first] = it->second.second;
      flag["output_price_history_delimited_proto_file"] = kOutP;
      flag["output_ohlc_history_delimited_proto_file"] = kOutO;
      flag["output_side_history_delimited_proto_file"] = kOutS;
    }
    flag["start_time"] = "2010-01-01";
    flag["end_time"] = "2100-01-01";
    bool no_input = false, second = false, faults = false;
    for (const string& l : in) faults |= l.compare(0, 6, "fault ") == 0;
    for (const string& l : in) {
      if (l.compare(0, 4, "bad ")) continue;
      const string b = l.substr(4);
      const size_t eq = b.find('=');
      if (eq != string::npos) {
        flag[b.substr(0, eq)] = b.substr(eq + 1);
      } else if (b == "empty_portfolio") {
        flag["start_base_balance"] = flag["start_quote_balance"] = "0";
      } else if (b == "no_input" || b == "missing_input") {
        if (second) continue;
        no_input = true;
        for (auto it = flag.begin(); it != flag.end();)
          if (it->first.compare(0, 6, "input_") == 0 && (it->first.find("side") == string::npos || !trader)) {
            if (b == "missing_input") (it++)->second = "/sim/in_missing";
            else if (trader) (it++)->second = "";
            else it = flag.erase(it);
          } else {
            ++it;
          }
      } else if (b == "missing_side") {
        flag["input_side_history_delimited_proto_file"] = "/sim/in_missing";
      } else if (b.compare(0, 16, "logs_of_periods_") == 0) {
        if (flag.count("evaluate_batch")) flag.erase("evaluate_batch");
        const int w = atoi(b.c_str() + 16);
        if (!flag.count("evaluation_period_months")) flag["evaluation_period_months"] = "6";
        if (w & 1) flag["output_exchange_log_file"] = "/sim/x.csv";
        if (w & 2) flag["output_trader_log_file"] = "/sim/t.csv";
      } else if (b.compare(0, 13, "second_input_") == 0) {
        auto it = inputs.find(b.substr(13));
        if (it == inputs.end() || flag.count(it->second.first) || no_input) continue;
        flag[it->second.first] = it->second.second;
        second = true;
      } else {
        continue;
      }
      bad.push_back(b);
    }
    vector<string> args = {trader ? "trader" : "convert"};
    string call = args[0];
    for (auto& a : flag) args.push_back("--" + a.first + "=" + a.second), call += " " + args.back();
    Reset();
    SetArgs(args);
    ApplyFaults(in, "R", OpCounts());
    ApplyEnv(in, "R");
    Exec x = Do(trader ? TG_TRADER : TG_CONVERT);
    const DiskImage disk1 = SaveDisk();
    State(HashBytes(HashBytes(g_run.hash, call.data(), call.size()), &x.status, sizeof x.status));
    out.trivial = bad.empty();
    if (bad.empty()) {
      if (x.status != 0 && !faults) return out.Fail("valid-refused", Fmt("status %d for a valid call: %s: %.300s", x.status, call.c_str(), x.err.c_str())), out;
      return out;
    }
    string what;
    for (auto& b : bad) what += (what.empty() ? "" : " and ") + b;
    if (x.Broken())
      return out.Fail("crash", Fmt("the program %s instead of refusing a call with %s: status %d, %.300s", x.Hung() ? "hangs" : "crashes", what.c_str(), x.status, x.err.c_str())), out;
    if (x.status == 0) return out.Fail("accepted", Fmt("a call with %s succeeds: %s", what.c_str(), call.c_str())), out;
    if (x.err.empty()) return out.Fail("silent", Fmt("a call with %s is refused without a message: %s", what.c_str(), call.c_str())), out;
    for (auto& d : disk1) {
      auto it = disk0.find(d.first);
      if (it == disk0.end()) return out.Fail("file-touched", Fmt("the refused call with %s creates %s", what.c_str(), d.first.c_str())), out;
      if (it->second != d.second) return out.Fail("file-touched", Fmt("the refused call with %s changes %s", what.c_str(), d.first.c_str())), out;
    }
    if (disk0.size() != disk1.size()) return out.Fail("file-touched", Fmt("the refused call with %s removes a file", what.c_str())), out;
    Probe("refused: " + bad[0].substr(0, bad[0].find('=')));
    return out;
  }
};
Register r23(new C23);

}  // namespace
}  // namespace sim
