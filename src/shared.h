// Shared state between the worker (orchestrator, oracles) and the simulated
// processes (forked children running the repository's code).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- fault plan
enum OpClass { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SYNC, OP_META, OP_RENAME, OP_NCLASS };
enum FaultKind {
  FK_NONE,
  FK_SHORT,       // transfer at most `param` bytes (>=1)
  FK_EINTR,       // fail with EINTR, once
  FK_EIO,         // fail with EIO
  FK_ENOSPC,      // write: transfer `param` bytes (maybe 0), the disk is full from then on
  FK_OPENFAIL,    // open fails with errno `param`
  FK_CLOSEFAIL,   // close fails with errno EIO (data written before stays)
  FK_RENAMEFAIL,  // rename fails with errno `param`, the names stay as they were
  FK_CRASH,       // process is killed; a write transfers `param` bytes first (torn)
  FK_NKIND
};
extern const char* kOpClassName[OP_NCLASS];
extern const char* kFaultKindName[FK_NKIND];

struct Fault {
  int32_t op;       // OpClass, or -1: global op index
  uint32_t nth;     // 0-based index within the class
  int32_t kind;
  int64_t param;
  uint32_t fired;
  uint32_t seen;
  uint32_t near;     // fired on a file with `file` inside its name (a temporary of it)
  char file[24];     // only operations on files with this in their path (empty: all)
};

// Statistics of fault kinds that actually fired, plus reach probes.
enum Stat {
  ST_SHORT_READ, ST_SHORT_WRITE, ST_EINTR, ST_EIO_READ, ST_EIO_WRITE, ST_ENOSPC, ST_OPENFAIL,
  ST_CLOSEFAIL, ST_CRASH, ST_TORN_WRITE, ST_ALLOC_FAIL, ST_THREAD_EAGAIN, ST_PREEMPT, ST_CONFLICT_PREEMPT,
  ST_CLOCK_JUMP, ST_CONCURRENT_WRITE_STEP, ST_POWERLOSS, ST_BITFLIP, ST_TRUNCATE, ST_RENAMEFAIL, ST_RANDOM, ST_NSTAT
};
extern const char* kStatName[ST_NSTAT];

// ---------------------------------------------------------------- virtual disk
constexpr int kMaxFiles = 12;
constexpr uint32_t kFileCap = 6u << 20;
constexpr int kMaxFaults = 64;
constexpr uint32_t kOpLogCap = 200000;
constexpr uint32_t kOpDataCap = 24u << 20;

struct VFile {
  char path[120];
  uint32_t used;     // slot in use (exists on disk)
  uint32_t size;
  uint32_t hiwater;  // largest byte ever touched in the slot (for cheap clearing)
};

enum VOpType { VO_CREATE, VO_TRUNC, VO_WRITE, VO_SYNC, VO_RENAME, VO_UNLINK };
struct VOp {
  int32_t type;
  int32_t file;
  int32_t file2;
  uint32_t off, len, data;  // data: offset into opdata
};

struct Disk {
  VFile f[kMaxFiles];
};

// ---------------------------------------------------------------- config of one execution
enum SchedMode { SM_NONE, SM_SERIAL, SM_RANDOM, SM_PCT, SM_CONFLICT, SM_EXPLICIT };

constexpr int kMaxSwitch = 512;
struct SwitchPoint {
  uint64_t at;     // access count (preempt) or block index (pick)
  int32_t tid;
  int32_t is_pick; // 1: choice at the `at`-th blocking point
};

struct ExecCfg {
  // argv / scenario
  char argv[64][256];
  int32_t argc;
  // faults
  Fault faults[kMaxFaults];
  int32_t nfaults;
  uint64_t chunk_read_seed, chunk_write_seed;  // 0: off; otherwise every transfer is split at a seeded size
  uint32_t chunk_max;
  uint32_t chunk_intr;  // 1: split reads are also interrupted, 2: writes
  int64_t disk_capacity;                       // <0: unlimited; bytes that may still be written
  uint64_t op_budget;
  uint64_t access_budget;
  // clock
  int64_t clock_start_ns;
  uint64_t clock_seed;   // 0: steady advance
  // memory
  int32_t fill_byte;     // fill pattern for malloc'ed memory, -1: off
  int64_t alloc_fail_at; // <0: off; index of the failing allocation
  uint32_t alloc_fail_min;  // only allocations of at least this size count
  // env
  char tz[64];
  int32_t cpus;
  // threads
  int32_t sched_mode;
  uint64_t sched_seed;
  uint32_t sched_rate;          // SM_RANDOM: mean accesses between switches
  int32_t npct;
  uint64_t pct_at[16];
  SwitchPoint sw[kMaxSwitch];   // SM_EXPLICIT plan
  int32_t nsw;
  uint64_t thread_fail_mask;    // bit i: i-th thread creation fails with EAGAIN
  int32_t thread_fail_all;      // every creation from this index on fails; <0 off
  int32_t profile_conflicts;
  // concurrent writer (reader executions): op log applied before chosen reader ops
  int32_t writer_active;
  uint32_t writer_nops;
  uint64_t writer_seed;
  uint32_t writer_step_max;
  uint32_t writer_start;        // ops applied before the reader starts
  int32_t record_ops;           // keep the log of disk operations
};

constexpr uint32_t kTraceCap = 32u << 20;
constexpr uint32_t kOutCap = 4u << 20;
constexpr int kMaxConflict = 4096;

struct ExecRes {
  uint64_t op_count[OP_NCLASS];
  uint64_t file_ops[OP_NCLASS][kMaxFiles];  // per disk slot
  uint64_t ops_total;
  uint64_t access_count;
  uint64_t alloc_count;
  uint64_t block_count;
  uint64_t max_threads;
  uint64_t threads_created;
  int64_t sim_ns;
  uint64_t stat[ST_NSTAT];
  uint64_t sched_hash;
  uint32_t trace_len;
  uint32_t trace_overflow;
  uint32_t aux_len;
  // recorded switches
  SwitchPoint rec[kMaxSwitch];
  int32_t nrec;
  int32_t rec_overflow;
  // conflicting addresses found by profiling
  uint64_t conflict[kMaxConflict];
  int32_t nconflict;
  int32_t vfs_error;   // simulator limitation hit (slot/capacity overflow)
  // op log
  uint32_t nvops;
  uint32_t vop_data_len;
};

struct Shared {
  Disk disk;
  Disk base;            // snapshot for concurrent writer replays
  ExecCfg cfg;
  ExecRes res;
  VOp vops[kOpLogCap];
  // concurrent writer log (copied from a recorded execution)
  VOp wops[kOpLogCap];
  uint32_t nwops;
  uint32_t scenario_len;
  char scenario[64u << 20];
  char trace[kTraceCap];
  uint8_t opdata[kOpDataCap];
  uint8_t wopdata[kOpDataCap];
  uint8_t data[kMaxFiles][kFileCap];
};

extern Shared* g_sh;   // mapped MAP_SHARED before forking

// Exit codes of simulated children used by the simulator itself.
enum { EXIT_SIM_CRASH = 137, EXIT_SIM_HANG = 98, EXIT_SIM_DEADLOCK = 97, EXIT_SIM_ERROR = 96 };

// ---------------------------------------------------------------- disk access for the worker
int DiskFind(const Disk& d, const char* path);
void DiskReset();
void DiskPut(const std::string& path, const std::string& bytes);
bool DiskGet(const std::string& path, std::string* bytes);
void DiskRemove(const std::string& path);
void ApplyVOp(const VOp& op, const uint8_t* opdata);

// ---------------------------------------------------------------- child side
void ChildActivate();   // interposition on
void ChildDeactivate();
bool SimActive();
[[noreturn]] void SimExit(int code);

struct SplitMix {
  uint64_t s;
  explicit SplitMix(uint64_t seed) : s(seed) {}
  uint64_t Next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
};

}  // namespace sim

extern "C" {
// Trace seam for the adapters: appends raw text to the recorded history.
void sim_trace(const char* data, size_t n);
const char* sim_scenario(size_t* n);
}
