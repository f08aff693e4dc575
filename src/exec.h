// Runs the repository's code in simulated processes (forked children).
#pragma once
#include <map>
#include <string>
#include <vector>

#include "shared.h"

namespace sim {

enum Target { TG_CONVERT, TG_TRADER, TG_ENGINE, TG_IND, TG_NTARGET };
extern const char* kTargetName[TG_NTARGET];

struct Exec {
  // result of the last execution
  int status = 0;        // exit code, or 1000+signal
  std::string out, err;
  std::string trace;
  bool Ok() const { return status == 0; }
  bool Crashed() const { return status == EXIT_SIM_CRASH; }
  bool Hung() const { return status == EXIT_SIM_HANG || status == EXIT_SIM_DEADLOCK || status == 1000 + 24 /*SIGXCPU*/ || status == 1000+9; }
  // Ended by a signal or never: not the way a program reports an error.
  bool Broken() const { return status >= 1000 || Hung(); }
};

// Starts the zygotes of this worker; `dir` holds the shared objects.
void ExecInit(const std::string& dir);
int ZygoteMain(int target, const std::string& dir);
// A default configuration (no faults, serial schedule, steady clock).
ExecCfg DefaultCfg();
// Executes `target` under g_sh->cfg. Args: argv for programs; adapters read the scenario.
Exec RunTarget(Target target);
void SetArgs(const std::vector<std::string>& args);
void AddFault(int op, uint32_t nth, int kind, int64_t param, const char* file = "");

using DiskImage = std::map<std::string, std::string>;
DiskImage SaveDisk();
void LoadDisk(const DiskImage& img);

struct OpLog {
  std::vector<VOp> ops;
  std::vector<uint8_t> data;
};
OpLog SaveOpLog();
void LoadWriterLog(const OpLog& log);

// Totals of fired faults over everything this worker executed.
struct Totals {
  uint64_t execs = 0;
  uint64_t by_target[TG_NTARGET] = {};
  uint64_t stat[ST_NSTAT] = {};
  uint64_t sim_ns = 0;
  uint64_t ops = 0;
  uint64_t accesses = 0;
};
extern Totals g_tot;

uint64_t HashBytes(uint64_t h, const void* p, size_t n);
}  // namespace sim
