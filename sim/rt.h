// Simulator runtime: owns threads, interleaving, clock, allocator and file I/O of one simulated
// process ("life").  Everything here is driven by seeds; nothing reads a real clock or entropy.
#pragma once
#include <map>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

constexpr int MAXT = 8;

struct Rng {                       // splitmix64/xorshift: one integer decides everything
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool per10k(int p) { return (int)below(10000) < p; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};

struct Switch { int tid; uint64_t local; int to; };

struct Config {                    // one life
    uint64_t schedSeed = 1;
    int mode = 0;                  // 0 random walk, 1 priorities (PCT), 2 explicit list
    uint64_t mean = 2000;          // random walk: mean accesses between preemptions
    int pSync = 20;                // % preemption at lock/unlock/atomic/once
    int pShared = 10;              // % preemption at an access to a location another thread used
    int pIo = 30;                  // % preemption at I/O calls
    int pctPoints = 3; uint64_t pctSpan = 2000000;
    std::vector<Switch> list;      // mode 2
    uint8_t fill = 0xCD;           // contents of fresh heap and stack memory
    uint64_t quar = 8ull << 20;    // bytes of freed memory kept from reuse; 0: the block freed last is handed out next
    bool race = true;              // happens-before race detection (needs >1 thread)
    uint64_t maxSteps = 400000000ull;
    uint64_t memCap = 192ull << 20;
    int64_t clock0 = 1600000000ll * 1000000000ll; // ns
    int64_t clockStep = 1000;      // ns added by each reading of the clock
    std::vector<std::pair<int,int64_t>> clockJumps; // (reading number, delta ns)
};

// Faults of one operation of one thread.
struct OpFault {
    int64_t oomAt = -1;            // fail this allocation of the op (0 based)
    bool oomSticky = false;        // ... and every later one until the op ends
    // file layer
    int rdShort = 0, wrShort = 0;  // >0: seed for short reads/writes
    int eintr = 0;                 // >0: every n-th call is interrupted first
    int64_t rdErrAt = -1; int rdErr = 0;      // read error at byte offset
    int64_t rdEofAt = -1;                     // premature end
    int64_t wrErrAt = -1; int wrErr = 0;      // write error (EIO/ENOSPC) at byte offset
    int closeErr = 0;                         // close fails
    int openErr = 0;                          // open fails
    int seekErr = 0;
    int64_t crashAt = -1;                     // process dies when this many bytes were written by the op
    int64_t crashStep = -1;                   // process dies at this step of the op
    int stall = 0;                            // >0: I/O calls take simulated time
};

enum FaultKind { FK_OOM, FK_OOM_STICKY, FK_MEMCAP, FK_RD_SHORT, FK_WR_SHORT, FK_EINTR, FK_RD_ERR, FK_RD_EOF, FK_WR_ERR, FK_CLOSE_ERR, FK_OPEN_ERR,
    FK_SEEK_ERR, FK_CRASH_IO, FK_CRASH_STEP, FK_STALL, FK_CLOCK_JUMP, FK_SRC_CHUNK, FK_SRC_NOSEEK, FK_SRC_ERR, FK_SRC_EOF, FK_SINK_FAIL, FK_SINK_SHORT,
    FK_DAMAGE, FK_LOCALE, FK_TZ, FK_RESTART, FK_BADINPUT, FK_N };
extern const char* const faultName[FK_N];

enum VKind { V_NONE, V_RACE, V_MEM, V_CRASH, V_DEADLOCK, V_HANG, V_ORACLE, V_INTERNAL };

constexpr int MAXPC = 24;
struct Report {                    // shared with the parent process
    volatile int kind;             // VKind
    char cat[32];                  // oracle category
    char msg[3000];
    int npc; uint32_t pcs[MAXPC];  // stack of the violating thread, innermost first
    uint32_t pc2;                  // the other access of a race
    uint64_t hash;                 // digest of the execution so far
    uint64_t steps, switches, allocs, simNs, clockReads, conflicts;
    uint64_t fired[FK_N];
    uint64_t ops;
    volatile int done;             // life finished normally
    volatile int crashed;          // injected crash happened
    uint32_t nsw; Switch sw[40000];
    uint32_t nstate; 
    uint64_t stacksHit;
};
extern Report* rep;

extern Config cfg;
void initProcess();                                        // once, before any fork
void runLife(const std::vector<std::function<void()>>& threads); // [0] is the main thread: may call spawnAll()
void spawnAndJoin();                                       // called by thread 0
int tid();
void violation(VKind k, const char* cat, const std::string& msg) __attribute__((noreturn));
void hashEvent(uint64_t v);
void hashBytes(const void* p, size_t n);
uint64_t eventSeq();                                       // global event sequence number
void yieldIo();
void sleepNs(int64_t ns);
bool waitOn(const void* o); void wakeOn(const void* o);       // harness pipes: wait until woken (false: there is nobody else), wake all who wait
extern std::vector<std::pair<uint64_t, int64_t>> clockLog; // every clock reading by the code under test (event number, value)
int64_t nowNs(); int64_t readClockNs(); void setClockNs(int64_t);
void fired(FaultKind k);
uint64_t steps();

struct InLib { bool old; InLib(); ~InLib(); };             // code under test from here
struct OutLib { bool old; OutLib(); ~OutLib(); };          // harness callback
void beginOp(const OpFault& f, uint64_t stepLimit); struct OpStats { uint64_t allocs, steps; bool oomFired; bool anyIoFault; int64_t written, read; }; OpStats endOp();
bool oomFiredNow(); bool ioFaultFiredNow();
uint64_t oomStackHash(); std::string oomStack(int n);
void profileAllocs(std::vector<uint64_t>* out, std::map<uint64_t, std::vector<uint32_t>>* stacks = nullptr);   // stack hash of each allocation of the op

void goldenReset();
void goldenAlloc(bool on);                                 // allocate from the area shared by all lives
void setPass(int p);                                       // tag for leak accounting
struct Leak { uint64_t count, bytes; uint32_t pcs[MAXPC]; int npc; uint64_t firstSize; };
Leak liveSince(int pass);                                  // blocks allocated in pass >= p and still live
uint64_t liveBytes();
void contain(const char* dir);        // the only directory, besides /tmp, in which library calls may create, replace or remove names
bool inArena(const void* p);
std::string stackText(const uint32_t* pcs, int n);
std::string funcName(uint32_t pc);
int fdCount();
extern bool decimalComma;                                  // LC_NUMERIC of the simulated C library has a decimal comma
}
