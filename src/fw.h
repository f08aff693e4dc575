// Framework: scenarios, checks, outcomes, random numbers, text helpers.
#pragma once
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "exec.h"

namespace sim {

using std::string;
using std::vector;
typedef vector<string> Lines;

string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
string Fl(float f);                       // shortest text that reads back the same float
vector<string> Split(const string& s, char sep);
vector<string> Words(const string& s);
Lines SplitLines(const string& s);        // without the newlines; a last unterminated line counts

struct Rng : SplitMix {
  using SplitMix::SplitMix;
  int64_t Range(int64_t a, int64_t b) { return a + (int64_t)Below((uint64_t)(b - a + 1)); }
  bool Chance(int num, int den) { return (int)Below(den) < num; }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T>
  const T& Pick(const vector<T>& v) { return v[Below(v.size())]; }
  template <class T>
  T PickOf(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
};

// Options of a scenario: lines "o key value...".
struct Opts {
  std::map<string, string> m;
  explicit Opts(const Lines& l);
  bool Has(const string& k) const { return m.count(k) > 0; }
  string S(const string& k, const string& d = "") const;
  int64_t I(const string& k, int64_t d = 0) const;
  double D(const string& k, double d = 0) const;
};

struct Outcome {
  bool bad = false;
  string cls;      // violation class (kept by the minimiser)
  string detail;   // what was violated
  string key;      // identity for known_findings.txt
  bool trivial = false;
  bool Fail(const string& c, const string& d) {
    if (!bad) bad = true, cls = c, detail = d;
    return false;
  }
};

// What one run of a check accumulates (reset by RunScenario).
struct RunInfo {
  uint64_t hash = 1469598103934665603ULL;  // over every status, output, trace and disk image
  vector<uint64_t> states;                 // measure of distinct states reached (per check)
  vector<uint64_t> scheds;                 // schedule hashes of multi-threaded executions
  std::map<string, uint64_t> probes;       // "this rare condition was hit"
  string error;                            // simulator trouble, not a verdict
};
extern RunInfo g_run;
inline void Probe(const string& s, uint64_t n = 1) { if (n) g_run.probes[s] += n; }
void State(uint64_t h);

// Executes a target and folds everything observable into the run's hash.
Exec Do(Target t);
// Resets the configuration to the defaults.
ExecCfg& Reset();
void SetScenario(const string& text);

class Check {
 public:
  string id, level = "exploration";
  string rule;                 // how cases are made, what makes one non-trivial
  vector<string> components;   // real code / stubs
  string state_measure;
  vector<Target> targets;
  int quick_runs = 1000, thorough_runs = 40000;
  virtual ~Check() {}
  virtual void Generate(Rng& r, Lines& out) = 0;
  virtual Outcome Run(const Lines& in) = 0;
  // The same run with its schedule written out (for minimisation).
  virtual Lines Concretise(const Lines& in) { return in; }
};
typedef std::map<string, Check*> Registry;
Registry& Checks();
struct Register {
  Register(Check* c) { Checks()[c->id] = c; }
};

Outcome RunScenario(Check* c, const Lines& in, RunInfo* info);
Lines Minimise(Check* c, const Lines& in, const string& cls, double budget_s, int* tried);
double NowS();

// Faults as scenario lines: "fault <phase> <op> <where 0..9999> <kind> <param> [file]".
// `base` gives the number of operations of the class (on the file) in the undisturbed run.
struct OpCounts {
  uint64_t cls[OP_NCLASS];
  std::map<string, vector<uint64_t>> file;  // path -> per class
};
OpCounts CountOps();  // of the last execution
void ApplyFaults(const Lines& in, const string& phase, const OpCounts& base);
string FaultLine(const string& phase, int op, int where, int kind, int64_t param, const string& file);
// Environment lines: "env <phase> key value ..." (chunking, clock, cpus, tz, fill, capacity, alloc).
void ApplyEnv(const Lines& in, const string& phase);

}  // namespace sim
