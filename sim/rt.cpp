#include "rt.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <atomic>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <climits>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <dirent.h>
#include <random>

extern "C" { extern char __data_start, _end, __executable_start, etext;
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
template <class X> struct RA { typedef X value_type; RA() {} template <class Y> RA(const RA<Y>&) {} X* allocate(size_t n) { return (X*)__real_malloc(n * sizeof(X)); } void deallocate(X* p, size_t) { __real_free(p); } template <class Y> bool operator==(const RA<Y>&) const { return true; } template <class Y> bool operator!=(const RA<Y>&) const { return false; } };
template <class X> using RVec = std::vector<X, RA<X>>;
static_assert(sizeof(u64)==8,"");
const char* const faultName[FK_N] = {"alloc_fail_once","alloc_fail_sticky","memory_cap","read_short","write_short","eintr","read_error","read_early_eof","write_error","close_error","open_error",
    "seek_error","crash_in_io","crash_in_op","io_stall","clock_jump","source_chunked","source_unseekable","source_error","source_early_end","sink_failure","sink_short","stored_damage","host_locale","time_zone","process_restart","malformed_input"};
Report* rep; Config cfg;

// ---------------------------------------------------------------- layout
constexpr u64 A0 = 0x1000000000ull, ASZ = 1ull << 29;      // arena (heap of the code under test)
constexpr u64 SH0 = 0x1100000000ull;                        // race cells, 32 bytes per granule
constexpr u64 ST0 = 0x1200000000ull;                        // state byte per granule
constexpr u64 DS0 = 0x1300000000ull;                        // race cells of the program's data segment
constexpr u64 G0 = 0x2000000000ull, GSZ = 2ull << 30;       // golden area (shared between lives)
static u64 D0, DSZ;
static u8* const stt = (u8*)ST0;
struct GoldenHdr { u64 bump; };

// ---------------------------------------------------------------- threads
enum Status { S_NEW, S_RUN, S_BLOCK, S_SLEEP, S_DONE };
struct T {
    int id; std::atomic<u32> fut{0}; Status st = S_NEW; const void* waitObj = nullptr; int64_t wakeAt = 0; bool timedOut = false;
    u64 vc[MAXT]; u64 local = 0, nextPre = 0; bool inLib = false; size_t listPos = 0;
    u32* stk; int depth = 0; int prio = 0;
    OpFault f; bool inOp = false; u64 opAlloc = 0, opStep0 = 0, opLimit = 0; bool oomFired = false, ioFired = false; u64 oomHash = 0; u32 oomPcs[MAXPC]; int oomN = 0;
    int64_t wr = 0, rd = 0; u64 ioCalls = 0; u64 crashStep = ~0ull;
    std::function<void()> body; pthread_t pt; bool joined = false, detached = false; void* ret = nullptr; void* (*fn)(void*) = nullptr; void* arg = nullptr;
};
constexpr int STKMAX = 1 << 16;
static T* th[MAXT]; static int nT;
static __thread T* cur __attribute__((tls_model("local-exec")));
static Rng rngS(1);
static u64 nSteps, seqNo, simStart; static int64_t simNow; static u64 clkReads; static bool multi; static bool active;
static int aliveMulti; static u64 allocSeq, liveB; static int curPass; static bool golden;
static u64 hash_ = 1469598103934665603ull; static u64 nSwitch, nConf;
static std::vector<u64> pctAt; static size_t pctPos; static int pctLow;
static std::vector<u64>* profOut; static std::map<u64, std::vector<u32>>* profStk;
static bool listMode;

static inline void hmix(u64 v) { hash_ ^= v; hash_ *= 1099511628211ull; hash_ ^= hash_ >> 29; }
void hashEvent(u64 v) { hmix(v); }
void hashBytes(const void* p, size_t n) { const u8* b = (const u8*)p; u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } hmix(h ^ n); }
u64 eventSeq() { return ++seqNo; }
u64 steps() { return nSteps; }
int tid() { return cur ? cur->id : -1; }
void fired(FaultKind k) { rep->fired[k]++; hmix(0xF0 + k); }

static void fillStack(u32 pc) {
    int n = 0; if (pc) rep->pcs[n++] = pc;
    if (cur) for (int i = cur->depth - 1; i >= 0 && n < MAXPC; i--) if (i < STKMAX) rep->pcs[n++] = cur->stk[i];
    rep->npc = n;
}
static void finishReport() { rep->hash = hash_; rep->steps = nSteps; rep->switches = nSwitch; rep->allocs = allocSeq; rep->simNs = simNow - simStart; rep->clockReads = clkReads; rep->conflicts = nConf; }
static void die(int kind, const char* cat, const char* msg, u32 pc) {
    if (rep->kind == V_NONE) { rep->kind = kind; strncpy(rep->cat, cat, sizeof rep->cat - 1); strncpy(rep->msg, msg, sizeof rep->msg - 1); fillStack(pc); finishReport(); }
    _exit(3);
}
void violation(VKind k, const char* cat, const std::string& m) { die(k, cat, m.c_str(), 0); abort(); }

static void futexWait(std::atomic<u32>* f) { while (f->load() == 0) syscall(SYS_futex, (u32*)f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); f->store(0); }
static void futexWake(std::atomic<u32>* f) { f->store(1); syscall(SYS_futex, (u32*)f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void setNextPre(T* t) {
    if (!multi) { t->nextPre = ~0ull; return; }
    if (cfg.mode == 2) { t->nextPre = ~0ull; for (size_t i = t->listPos; i < cfg.list.size(); i++) if (cfg.list[i].tid == t->id) { if (cfg.list[i].local <= t->local) continue; t->nextPre = cfg.list[i].local; break; } return; }
    if (cfg.mode == 1) { t->nextPre = t->local + 64; return; }
    u64 m = cfg.mean; t->nextPre = t->local + 1 + rngS.below(2 * m);
}
static int runnable(int* out, bool wake) {
    int n = 0;
    for (;;) {
        n = 0; for (int i = 0; i < nT; i++) if (th[i]->st == S_RUN) out[n++] = i;
        if (n || !wake) return n;
        int64_t best = INT64_MAX; for (int i = 0; i < nT; i++) if (th[i]->st == S_SLEEP && th[i]->wakeAt < best) best = th[i]->wakeAt;
        if (best == INT64_MAX) return 0;
        if (best > simNow) simNow = best;                   // jump to the next event
        for (int i = 0; i < nT; i++) if (th[i]->st == S_SLEEP && th[i]->wakeAt <= simNow) { th[i]->st = S_RUN; th[i]->timedOut = true; }
    }
}
static void wakeSleepers() { for (int i = 0; i < nT; i++) if (th[i]->st == S_SLEEP && th[i]->wakeAt <= simNow) { th[i]->st = S_RUN; th[i]->timedOut = true; } }
static void switchTo(int n) {
    T* me = cur; T* to = th[n];
    if (to == me) return;
    if (rep->nsw < sizeof(rep->sw) / sizeof(Switch)) rep->sw[rep->nsw++] = Switch{me->id, me->local, n};
    nSwitch++; hmix(((u64)me->id << 60) ^ ((u64)n << 56) ^ me->local);
    futexWake(&to->fut);
    if (me->st == S_DONE) return;
    futexWait(&me->fut);
}
static bool listTarget(T* t, int* to) {                     // explicit schedule: is there an entry here?
    for (size_t i = t->listPos; i < cfg.list.size(); i++) { auto& s = cfg.list[i]; if (s.tid != t->id) continue; if (s.local < t->local) { t->listPos = i + 1; continue; } if (s.local == t->local) { *to = s.to; t->listPos = i + 1; return true; } return false; }
    return false;
}
static int highest(int* r, int n) { int b = r[0]; for (int i = 1; i < n; i++) if (th[r[i]]->prio > th[b]->prio) b = r[i]; return b; }
// A point where another thread may be chosen. cur holds the baton.
static void point(bool want) {
    T* t = cur; int r[MAXT]; int n = runnable(r, false);
    if (n > 1) {
        if (cfg.mode == 2) { int to; if (listTarget(t, &to) && to >= 0 && to < nT && th[to]->st == S_RUN) switchTo(to); }
        else if (cfg.mode == 1) {
            while (pctPos < pctAt.size() && nSteps >= pctAt[pctPos]) { t->prio = --pctLow; pctPos++; }
            switchTo(highest(r, n));
        }
        else if (want) { int k = (int)rngS.below(n - 1); int i = 0; for (; i < n; i++) { if (r[i] == t->id) continue; if (k-- == 0) break; } if (i < n) switchTo(r[i]); }
    }
    setNextPre(t);
}
static void mustBlock(const char* why) {                    // cur is not runnable any more
    T* t = cur; t->local++; int r[MAXT]; int n = runnable(r, true);
    if (t->st == S_RUN) { if (n <= 1) { setNextPre(t); return; } }   // woken by time
    if (!n) {
        std::string m = "no thread can run: "; for (int i = 0; i < nT; i++) if (th[i]->st == S_BLOCK) { m += "thread " + std::to_string(i) + " waits"; u32 p[6]; int k = 0; for (int d = th[i]->depth - 1; d >= 0 && k < 5; d--) p[k++] = th[i]->stk[d]; m += " at [" + stackText(p, k) + "]; "; }
        violation(V_DEADLOCK, "deadlock", m);
    }
    int to; 
    if (cfg.mode == 2) { if (!(listTarget(t, &to) && to >= 0 && to < nT && th[to]->st == S_RUN)) to = r[0]; }
    else if (cfg.mode == 1) to = highest(r, n);
    else to = r[rngS.below(n)];
    switchTo(to); setNextPre(t);
}
static inline void syncPoint() { T* t = cur; if (!multi || !t->inOp) return; t->local++; nSteps++; if (cfg.mode == 0) { if (rngS.chance(cfg.pSync)) point(true); } else point(false); }
void yieldIo() { T* t = cur; if (!t) return; t->local++; nSteps++; if (!multi) return; if (cfg.mode == 0) { if (rngS.chance(cfg.pIo)) point(true); } else point(false); }
void sleepNs(int64_t ns) { T* t = cur; if (!t) return; simNow += 0; if (!multi) { simNow += ns; return; } t->st = S_SLEEP; t->wakeAt = simNow + (ns > 0 ? ns : 1); mustBlock("sleep"); }

static void hang() { if (cur) cur->inLib = false; violation(V_HANG, "hang", "operation did not finish within its step budget"); }
static void stepSlow(T* t, u32 pc);

// ---------------------------------------------------------------- happens-before race detection
static inline u64 mkcell(T* t, u64 mask, bool w, bool at, u32 pc) { return (t->vc[t->id] & 0xffffff) | ((u64)t->id << 24) | ((u64)at << 27) | ((u64)w << 28) | (mask << 29) | ((u64)(pc & 0x7ffffff) << 37); }
static void raceReport(T* t, u64 addr, bool w, u64 v, u32 pc) {
    char m[512]; u32 p2 = (u32)(v >> 37); rep->pc2 = p2;
    snprintf(m, sizeof m, "data race: thread %d %s, thread %d earlier %s at %s, no synchronisation between them", t->id, w ? "writes" : "reads", (int)((v >> 24) & 7), ((v >> 28) & 1) ? "wrote" : "read", funcName(p2).c_str());
    (void)addr; die(V_RACE, "race", m, pc);
}
// returns true if another thread has used the location
static inline bool cellAccess(T* t, u64* c, u64 addr, u64 mask, bool w, bool at, u32 pc) {
    bool shared = false; int slot = -1; u64 myc = t->vc[t->id] & 0xffffff;
    for (int i = 0; i < 4; i++) {
        u64 v = c[i]; if (!v) { if (slot < 0) slot = i; continue; }
        int ot = (v >> 24) & 7; u64 om = (v >> 29) & 0xff; bool ow = (v >> 28) & 1, oa = (v >> 27) & 1;
        if (ot == t->id) {
            if ((v & 0xffffff) == myc && (om & mask) == mask && (ow || !w) && (!oa || at)) return shared;
            if ((om & ~mask) == 0 && (w || !ow) && (!at || oa)) slot = i;
            continue;
        }
        shared = true;
        if (!(om & mask) || !(w || ow) || (at && oa)) continue;
        if ((v & 0xffffff) <= t->vc[ot]) { if (w && !at && (om & ~mask) == 0) slot = i; continue; }   // ordered before us
        raceReport(t, addr, w, v, pc);
    }
    if (slot < 0) slot = (int)((pc >> 2) + nSteps) & 3;
    c[slot] = mkcell(t, mask, w, at, pc);
    return shared;
}
static void memError(u64 a, size_t n, bool w, u32 pc) {
    char m[400]; const char* what = "unallocated memory";
    // find the block
    u64 p = a & ~15ull; for (int i = 0; i < 65536 && p >= A0 + 32; i++, p -= 16) { u32* h = (u32*)(p - 32); if (h[1] == 0xA110C8ED) { what = (p + h[0] > a) ? "inside a live block (partial)" : "past the end of a live block"; break; } if (h[1] == 0xF4EEF4EE) { what = (p + h[0] > a) ? "memory that has been freed" : "past the end of a freed block"; break; } }
    snprintf(m, sizeof m, "invalid %s of %zu bytes: %s", w ? "write" : "read", n, what);
    die(V_MEM, "memory", m, pc);
}
static inline void conflict(T* t) { nConf++; if (cfg.mode == 0 && t->inOp && rngS.chance(cfg.pShared)) point(true); }
static inline __attribute__((always_inline)) void access(u64 a, size_t n, bool w, bool at, u32 pc) {
    T* t = cur; if (__builtin_expect(!t || !t->inLib, 0)) return;
    nSteps++; u64 l = ++t->local;
    bool sh = false;
    if (a - A0 < ASZ) {
        u64 g = (a - A0) >> 3, o = a & 7;
        if (o + n <= 8) {
            if (__builtin_expect(o + n > (u64)(stt[g] & 15), 0)) memError(a, n, w, pc);
            if (multi && cfg.race) sh = cellAccess(t, (u64*)(SH0 + g * 32), a, ((1ull << n) - 1) << o, w, at, pc);
        } else {
            u64 e = a + n;
            for (u64 x = a; x < e;) { u64 gx = (x - A0) >> 3, ox = x & 7, k = std::min<u64>(8 - ox, e - x); if (ox + k > (u64)(stt[gx] & 15)) memError(x, k, w, pc); if (multi && cfg.race) sh |= cellAccess(t, (u64*)(SH0 + gx * 32), x, ((1ull << k) - 1) << ox, w, at, pc); x += k; }
        }
    } else if (multi && a - D0 < DSZ) {
        u64 e = a + n; if (cfg.race) for (u64 x = a; x < e;) { u64 gx = (x - D0) >> 3, ox = x & 7, k = std::min<u64>(8 - ox, e - x); sh |= cellAccess(t, (u64*)(DS0 + gx * 32), x, ((1ull << k) - 1) << ox, w, at, pc); x += k; }
    } else if (__builtin_expect(a < 4096, 0)) die(V_CRASH, "crash", "null pointer dereference", pc);
    if (__builtin_expect(l >= t->nextPre || l >= t->crashStep || l - t->opStep0 > t->opLimit || nSteps > cfg.maxSteps, 0)) stepSlow(t, pc);
    else if (__builtin_expect(sh, 0)) conflict(t);
}
static void stepSlow(T* t, u32 pc) {
    if (t->inOp && t->local >= t->crashStep) { fired(FK_CRASH_STEP); rep->crashed = 1; finishReport(); _exit(77); }
    if (t->inOp && t->local - t->opStep0 > t->opLimit) { fillStack(pc); hang(); }
    if (nSteps > cfg.maxSteps) { fillStack(pc); hang(); }
    if (t->local >= t->nextPre) { if (t->inOp) point(true); else setNextPre(t); }
}
static void accessRange(u64 a, size_t n, bool w, u32 pc) { if (n) access(a, n, w, false, pc); }

struct SyncVar { u64 vc[MAXT]; int owner = -1; int count = 0; int readers = 0; int state = 0; };
typedef std::unordered_map<u64, SyncVar, std::hash<u64>, std::equal_to<u64>, RA<std::pair<const u64, SyncVar>>> SyncMap;
static SyncMap* syncs;
static SyncVar& sv(const void* p) {
    u64 a = (u64)p; auto it = syncs->find(a);
    if (it == syncs->end()) { it = syncs->emplace(a, SyncVar{}).first; memset(it->second.vc, 0, sizeof it->second.vc); if (a - A0 < ASZ) stt[(a - A0) >> 3] |= 0x80; }
    return it->second;
}
static void acquire(SyncVar& s) { T* t = cur; for (int i = 0; i < MAXT; i++) t->vc[i] = std::max(t->vc[i], s.vc[i]); }
static void release(SyncVar& s) { T* t = cur; for (int i = 0; i < MAXT; i++) s.vc[i] = std::max(t->vc[i], s.vc[i]); t->vc[t->id]++; }

// ---------------------------------------------------------------- allocator of the code under test
struct Hdr { u32 size, magic; u32 pass, seq; u32 pcs[4]; };
static_assert(sizeof(Hdr) == 32, "");
typedef std::map<u64, RVec<u64>, std::less<u64>, RA<std::pair<const u64, RVec<u64>>>> BigMap;
static u64 bump; static RVec<u64>* freeSmall; static BigMap* freeBig; static RVec<u64>* quar; static size_t quarPos; static u64 quarBytes;
static inline u64 roundup(u64 n) { u64 r = (n + 15) & ~15ull; if (r < 16) r = 16; if (r > 65536) r = (r + 4095) & ~4095ull; return r; }
static u64 stackHash(u32 pc) { u64 h = pc; T* t = cur; for (int i = t->depth - 1, k = 0; i >= 0 && k < 6; i--, k++) h = h * 1000003 + t->stk[std::min(i, STKMAX - 1)]; return h; }
static bool oomNow(T* t, u32 pc) {
    u64 k = t->opAlloc++; allocSeq++;
    if (profOut) { OutLib o; u64 h = stackHash(pc); profOut->push_back(h); if (profStk && profStk->find(h) == profStk->end()) { std::vector<u32> v; if (pc) v.push_back(pc); for (int i = t->depth - 1; i >= 0; i--) v.push_back(t->stk[std::min(i, STKMAX - 1)]); profStk->emplace(h, std::move(v)); } }
    if (!t->inOp || t->f.oomAt < 0) return false;
    if ((int64_t)k == t->f.oomAt || (t->f.oomSticky && (int64_t)k > t->f.oomAt)) {
        if (!t->oomFired) { t->oomFired = true; t->oomHash = stackHash(pc); int n = 0; if (pc) t->oomPcs[n++] = pc; for (int i = t->depth - 1; i >= 0 && n < MAXPC; i--) t->oomPcs[n++] = t->stk[std::min(i, STKMAX - 1)]; t->oomN = n; fired(t->f.oomSticky ? FK_OOM_STICKY : FK_OOM); }
        return true;
    }
    return false;
}
static void* arenaAlloc(size_t n, u32 pc) {
    T* t = cur;
    if (n > (1ull << 40)) return nullptr;
    if (oomNow(t, pc)) return nullptr;
    u64 r = roundup(n);
    if (liveB + r > cfg.memCap) { rep->fired[FK_MEMCAP]++; t->oomFired = true; return nullptr; }
    u64 p = 0;
    if (r <= 65536) { auto& fl = freeSmall[r >> 4]; if (!fl.empty()) { p = fl.back(); fl.pop_back(); } }
    else { auto it = freeBig->find(r); if (it != freeBig->end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); } }
    if (!p) { if (bump + 32 + r > A0 + ASZ) { rep->fired[FK_MEMCAP]++; t->oomFired = true; return nullptr; } p = bump + 32; bump += 32 + r; }
    Hdr* h = (Hdr*)(p - 32); h->size = (u32)n; h->magic = 0xA110C8ED; h->pass = curPass; h->seq = (u32)allocSeq;
    int k = 0; if (pc) h->pcs[k++] = pc; for (int i = t->depth - 1; i >= 0 && k < 4; i--) h->pcs[k++] = t->stk[std::min(i, STKMAX - 1)]; while (k < 4) h->pcs[k++] = 0;
    u64 g = (p - A0) >> 3; memset(stt + g, 8, n >> 3); if (n & 7) stt[g + (n >> 3)] = n & 7;
    memset((void*)p, cfg.fill, n > (1 << 20) ? (1 << 20) : n);
    if (multi && cfg.race) memset((void*)(SH0 + g * 32), 0, ((n + 7) >> 3) * 32);
    liveB += r; 
    return (void*)p;
}
static void reallyFree(u64 p) { Hdr* h = (Hdr*)(p - 32); u64 r = roundup(h->size); if (r <= 65536) freeSmall[r >> 4].push_back(p); else (*freeBig)[r].push_back(p); }
static void arenaFree(void* q, u32 pc) {
    u64 p = (u64)q; Hdr* h = (Hdr*)(p - 32);
    if ((p & 15) || p < A0 + 32 || h->magic != 0xA110C8ED) die(V_MEM, "memory", h->magic == 0xF4EEF4EE ? "double free" : "free of something that was not allocated", pc);
    u64 n = h->size, g = (p - A0) >> 3, ng = (n + 7) >> 3;
    T* t = cur;
    if (t && multi && cfg.race && t->inLib) for (u64 i = 0; i < ng; i++) { u64* c = (u64*)(SH0 + (g + i) * 32); for (int k = 0; k < 4; k++) { u64 v = c[k]; if (!v) continue; int ot = (v >> 24) & 7; if (ot != t->id && (v & 0xffffff) > t->vc[ot]) raceReport(t, p + i * 8, true, v, pc); } }
    bool sync = false; for (u64 i = 0; i < ng; i++) if (stt[g + i] & 0x80) { sync = true; for (int b = 0; b < 8; b++) syncs->erase(p + i * 8 + b); }
    (void)sync; memset(stt + g, 0, ng); if (n & 7) stt[g + (n >> 3)] = 0;
    memset(q, 0xDB, n > (1 << 20) ? (1 << 20) : n);
    h->magic = 0xF4EEF4EE; liveB -= roundup(n);
    quar->push_back(p); quarBytes += roundup(n);
    while (quarBytes > cfg.quar && quarPos < quar->size()) { u64 x = (*quar)[quarPos++]; quarBytes -= roundup(((Hdr*)(x - 32))->size); reallyFree(x); }
    if (quarPos > 100000) { quar->erase(quar->begin(), quar->begin() + quarPos); quarPos = 0; }
}
bool inArena(const void* p) { return (u64)p - A0 < ASZ; }
static void* goldAlloc(size_t n) { auto* h = (GoldenHdr*)G0; u64 r = (n + 15) & ~15ull; u64 p = h->bump; if (p + r > G0 + GSZ) { write(2, "golden area full\n", 17); _exit(9); } h->bump += r; return (void*)p; }
void goldenReset() { u64& b = ((GoldenHdr*)G0)->bump; madvise((void*)(G0 + 4096), (b - G0) & ~4095ull, MADV_REMOVE); b = G0 + 4096; }
void goldenAlloc(bool on) { golden = on; }
void setPass(int p) { curPass = p; }
u64 liveBytes() { return liveB; }
Leak liveSince(int pass) {
    Leak l; memset(&l, 0, sizeof l);
    for (u64 p = A0; p < bump;) { Hdr* h = (Hdr*)p; if (h->magic == 0xA110C8ED && (int)h->pass >= pass) { if (!l.count) { l.firstSize = h->size; for (int i = 0; i < 4; i++) if (h->pcs[i]) l.pcs[l.npc++] = h->pcs[i]; } l.count++; l.bytes += h->size; } p += 32 + roundup(h->size); }
    return l;
}
static inline bool exePc(void* pc) { return (u64)pc >= (u64)&__executable_start && (u64)pc < (u64)&etext; }
static inline u32 pcOf(void* pc) { return exePc(pc) ? (u32)(u64)pc : 0; }
static void* simNew(size_t n, void* pc) {
    if (golden) return goldAlloc(n);
    if (cur && cur->inLib) return arenaAlloc(n, pcOf(pc));
    return __real_malloc(n ? n : 1);
}
static void simFree(void* p, void* pc) {
    if (!p) return; u64 a = (u64)p;
    if (a - A0 < ASZ) arenaFree(p, pcOf(pc)); else if (a - G0 < GSZ) return; else __real_free(p);
}

InLib::InLib() { T* t = cur; old = t ? t->inLib : false; if (t) t->inLib = true; }
InLib::~InLib() { if (cur) cur->inLib = old; }
OutLib::OutLib() { T* t = cur; old = t ? t->inLib : false; if (t) t->inLib = false; }
OutLib::~OutLib() { if (cur) cur->inLib = old; }
void beginOp(const OpFault& f, u64 limit) {
    T* t = cur; t->f = f; t->inOp = true; t->opAlloc = 0; t->opStep0 = t->local; t->opLimit = limit; t->oomFired = t->ioFired = false; t->wr = t->rd = 0; t->ioCalls = 0;
    t->crashStep = f.crashStep >= 0 ? t->local + f.crashStep : ~0ull; setNextPre(t);
}
OpStats endOp() { T* t = cur; OpStats s{t->opAlloc, t->local - t->opStep0, t->oomFired, t->ioFired, t->wr, t->rd}; t->inOp = false; t->f = OpFault(); t->crashStep = ~0ull; t->opLimit = ~0ull >> 1; hmix(nSteps); hmix(s.allocs); return s; }
bool oomFiredNow() { return cur && cur->oomFired; }
bool ioFaultFiredNow() { return cur && cur->ioFired; }
u64 oomStackHash() { return cur->oomHash; }
void profileAllocs(std::vector<u64>* o, std::map<u64, std::vector<u32>>* s) { profOut = o; profStk = s; }
std::string oomStack(int n) { return stackText(cur->oomPcs, std::min(n, cur->oomN)); }

// ---------------------------------------------------------------- symbols
std::string funcName(u32 pc) {
    if (!pc) return "?"; OutLib ol; Dl_info di; 
    if (dladdr((void*)(u64)(pc - 1), &di) && di.dli_sname) { int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st); std::string s = st == 0 ? d : di.dli_sname; if (d) free(d); size_t p = s.find('('); if (p != std::string::npos && p > 0) s.resize(p); return s; }
    char b[32]; snprintf(b, sizeof b, "0x%x", pc); return b;
}
std::string stackText(const u32* pcs, int n) { std::string s; for (int i = 0; i < n; i++) { if (i) s += " < "; s += funcName(pcs[i]); } return s; }

// ---------------------------------------------------------------- life
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
#define REAL(name) static decltype(&::name) real_##name() { static decltype(&::name) f; if (!f) f = (decltype(&::name))dlsym(RTLD_NEXT, #name); return f; }
REAL(pthread_create) REAL(pthread_join) REAL(pthread_detach) REAL(pthread_mutex_lock) REAL(pthread_mutex_trylock) REAL(pthread_mutex_unlock)
REAL(pthread_rwlock_rdlock) REAL(pthread_rwlock_wrlock) REAL(pthread_rwlock_tryrdlock) REAL(pthread_rwlock_trywrlock) REAL(pthread_rwlock_unlock)
REAL(pthread_cond_wait) REAL(pthread_cond_timedwait) REAL(pthread_cond_signal) REAL(pthread_cond_broadcast) REAL(pthread_once)
REAL(clock_gettime) REAL(gettimeofday) REAL(time) REAL(nanosleep) REAL(usleep) REAL(sched_yield) REAL(localtime) REAL(localtime_r) REAL(gmtime) REAL(gmtime_r) REAL(mktime)
REAL(read) REAL(write) REAL(writev) REAL(readv) REAL(lseek) REAL(lseek64) REAL(close) REAL(fopen) REAL(fclose) REAL(pread) REAL(pwrite)

static void __attribute__((noinline)) scrubStack() { volatile char b[192 * 1024]; memset((void*)b, cfg.fill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static void threadExit(T* t) { 
    t->st = S_DONE; release(sv(t)); t->local++;
    for (int i = 0; i < nT; i++) if (th[i]->st == S_BLOCK && th[i]->waitObj == t) th[i]->st = S_RUN;
    int r[MAXT]; int n = runnable(r, true);
    if (!n) { bool all = true; for (int i = 0; i < nT; i++) if (th[i]->st != S_DONE) all = false; if (all) return; std::string m; for (int i = 0; i < nT; i++) if (th[i]->st == S_BLOCK) { u32 p[6]; int k = 0; for (int d = th[i]->depth - 1; d >= 0 && k < 5; d--) p[k++] = th[i]->stk[d]; m += "thread " + std::to_string(i) + " waits for ever at [" + stackText(p, k) + "]; "; } violation(V_DEADLOCK, "deadlock", m); }
    int to; if (cfg.mode == 2) { if (!(listTarget(t, &to) && to >= 0 && to < nT && th[to]->st == S_RUN)) to = r[0]; } else if (cfg.mode == 1) to = highest(r, n); else to = r[rngS.below(n)];
    switchTo(to); 
}
static void* threadMain(void* a) {
    T* t = (T*)a; futexWait(&t->fut);
    static thread_local char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    scrubStack(); cur = t; setNextPre(t);
    if (t->fn) { acquire(sv(t)); t->inLib = true; t->inOp = true; t->opLimit = ~0ull >> 1; t->ret = t->fn(t->arg); t->inLib = false; t->inOp = false; }
    else t->body();
    cur = t; threadExit(t); return nullptr;
}
static T* newThread() { T* t = new T; t->id = nT; memset(t->vc, 0, sizeof t->vc); t->vc[t->id] = 1; t->stk = (u32*)mmap(nullptr, STKMAX * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->opLimit = ~0ull >> 1; th[nT++] = t; return t; }
static int startReal(T* t) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20); int r = real_pthread_create()(&t->pt, &at, threadMain, t); pthread_attr_destroy(&at); return r; }

static void onSignal(int sig, siginfo_t* si, void* uc) {
    u32 pc = 0;
#if defined(__x86_64__)
    pc = pcOf((void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]);
#endif
    char m[200]; if (sig == SIGABRT) snprintf(m, sizeof m, "the process aborted (uncaught exception, terminate or failed assertion)"); else snprintf(m, sizeof m, "the process died of signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "");
    (void)si; die(V_CRASH, "crash", m, pc);
}
static std::vector<std::function<void()>> bodies;
void spawnAndJoin() {
    T* me = cur; if (bodies.size() <= 1) return;
    multi = true; int first = nT; 
    for (size_t i = 1; i < bodies.size(); i++) { T* t = newThread(); t->body = bodies[i]; for (int k = 0; k < MAXT; k++) t->vc[k] = std::max(t->vc[k], me->vc[k]); t->st = S_RUN; }
    me->vc[me->id]++;
    if (cfg.mode == 1) { std::vector<int> p; for (int i = first; i < nT; i++) p.push_back(i); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rngS.below(i)]); for (size_t i = 0; i < p.size(); i++) th[p[i]]->prio = 100 + (int)i; me->prio = 1000; }
    for (int i = first; i < nT; i++) if (startReal(th[i])) { write(2, "pthread_create failed\n", 22); _exit(9); }
    for (int i = first; i < nT; i++) while (th[i]->st != S_DONE) { me->st = S_BLOCK; me->waitObj = th[i]; mustBlock("join"); }
    for (int i = first; i < nT; i++) acquire(sv(th[i]));
    multi = false; setNextPre(me);
}
void runLife(const std::vector<std::function<void()>>& b) {
    bodies = b; syncs = new SyncMap; freeSmall = new RVec<u64>[4097]; freeBig = new BigMap; quar = new RVec<u64>; bump = A0 + 0;
    rngS = Rng(cfg.schedSeed); cfg.clock0 = std::max<int64_t>(cfg.clock0, 0); simNow = simStart = cfg.clock0; active = true;
    if (cfg.mode == 1) { for (int i = 0; i < cfg.pctPoints; i++) pctAt.push_back(rngS.below(cfg.pctSpan)); std::sort(pctAt.begin(), pctAt.end()); }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    nT = 0; T* t = newThread(); t->body = bodies[0]; t->st = S_RUN;
    if (startReal(t)) _exit(9);
    futexWake(&t->fut); real_pthread_join()(t->pt, nullptr);
    finishReport(); rep->done = 1;
}
void initProcess() {
    auto map = [](u64 a, u64 n, int fl) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*)a) { perror("mmap"); _exit(9); } };
    map(A0, ASZ, MAP_PRIVATE); map(SH0, ASZ * 4, MAP_PRIVATE); map(ST0, ASZ / 8, MAP_PRIVATE);
    D0 = (u64)&__data_start & ~7ull; DSZ = (u64)&_end - D0; map(DS0, (DSZ * 4 + 8191) & ~4095ull, MAP_PRIVATE);
    map(G0, GSZ, MAP_SHARED); ((GoldenHdr*)G0)->bump = G0 + 4096;
    madvise((void*)A0, ASZ, MADV_NOHUGEPAGE); madvise((void*)SH0, ASZ * 4, MADV_NOHUGEPAGE);
    rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    real_pthread_create(); real_pthread_join(); real_pthread_mutex_lock(); real_pthread_mutex_unlock(); real_clock_gettime(); real_time(); real_localtime_r(); real_read(); real_write(); real_writev(); real_lseek64(); real_lseek(); real_close(); real_fopen(); real_fclose(); real_localtime(); real_gmtime();
}
bool decimalComma = false;
int fdCount() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

// ---------------------------------------------------------------- clock
std::vector<std::pair<u64, int64_t>> clockLog;
int64_t nowNs() { return simNow; }
void setClockNs(int64_t v) { simNow = std::max<int64_t>(v, 0); }
int64_t readClockNs() {
    if (cur && cur->inLib) { clkReads++; for (auto& j : cfg.clockJumps) if ((u64)j.first == clkReads) { simNow = std::max<int64_t>(simNow + j.second, 0); fired(FK_CLOCK_JUMP); wakeSleepers(); } simNow += cfg.clockStep; OutLib o; clockLog.push_back({seqNo, simNow}); int64_t v = simNow; yieldIo(); return v; }
    return simNow;
}

// ---------------------------------------------------------------- file layer
static inline bool ioOn() { return cur && cur->inLib && cur->inOp; }
static int ioEnter(T* t) { t->ioCalls++; OutLib o; if (t->f.stall) { fired(FK_STALL); sleepNs((int64_t)1000000 * (1 + (t->ioCalls * 7 + t->f.stall) % 50)); } yieldIo(); return 0; }
static bool eintrNow(T* t) { if (t->f.eintr > 0 && t->ioCalls % (t->f.eintr + 1) == 1) { fired(FK_EINTR); errno = EINTR; return true; } return false; }
static ssize_t simRead(int fd, void* b, size_t n) {
    T* t = cur; ioEnter(t); if (eintrNow(t)) return -1;
    size_t want = n;
    if (t->f.rdErrAt >= 0) { if (t->rd >= t->f.rdErrAt) { t->ioFired = true; fired(FK_RD_ERR); errno = t->f.rdErr; return -1; } if (t->rd + (int64_t)want > t->f.rdErrAt) want = t->f.rdErrAt - t->rd; }
    if (t->f.rdEofAt >= 0) { if (t->rd >= t->f.rdEofAt) { t->ioFired = true; fired(FK_RD_EOF); return 0; } if (t->rd + (int64_t)want > t->f.rdEofAt) want = t->f.rdEofAt - t->rd; }
    if (t->f.rdShort && want > 1) { Rng r((u64)t->f.rdShort * 1000003 + t->ioCalls); size_t k = 1 + r.below(r.chance(50) ? std::min<size_t>(want, 40) : want); if (k < want) { want = k; fired(FK_RD_SHORT); } }
    ssize_t r = real_read()(fd, b, want); if (r > 0) t->rd += r; return r;
}
static ssize_t simWriteBytes(int fd, const char* b, size_t n) {
    T* t = cur; ioEnter(t); if (eintrNow(t)) return -1; size_t want = n;
    if (t->f.crashAt >= 0 && t->wr + (int64_t)want >= t->f.crashAt) { size_t k = t->f.crashAt - t->wr; if (k) real_write()(fd, b, k); t->wr += k; fired(FK_CRASH_IO); rep->crashed = 1; finishReport(); _exit(77); }
    if (t->f.wrErrAt >= 0) { if (t->wr >= t->f.wrErrAt) { t->ioFired = true; fired(FK_WR_ERR); errno = t->f.wrErr; return -1; } if (t->wr + (int64_t)want > t->f.wrErrAt) want = t->f.wrErrAt - t->wr; }
    if (t->f.wrShort && want > 1) { Rng r((u64)t->f.wrShort * 1000003 + t->ioCalls); size_t k = 1 + r.below(want); if (k < want) { want = k; fired(FK_WR_SHORT); } }
    ssize_t r = real_write()(fd, b, want); if (r > 0) t->wr += r; return r;
}
static ssize_t simWritev(int fd, const struct iovec* v, int c) { std::string s; { OutLib o; for (int i = 0; i < c; i++) s.append((char*)v[i].iov_base, v[i].iov_len); } ssize_t r = simWriteBytes(fd, s.data(), s.size()); { OutLib o; s.clear(); s.shrink_to_fit(); } return r; }
static int simClose(T* t) { ioEnter(t); if (t->f.crashAt >= 0 && t->wr >= t->f.crashAt) { fired(FK_CRASH_IO); rep->crashed = 1; finishReport(); _exit(77); } if (t->f.closeErr && t->wr > 0) { t->ioFired = true; fired(FK_CLOSE_ERR); errno = t->f.closeErr; return -1; } return 0; }
struct Cookie { int fd; };
static ssize_t ckRead(void* c, char* b, size_t n) { return simRead(((Cookie*)c)->fd, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) { size_t done = 0; while (done < n) { ssize_t r = simWriteBytes(((Cookie*)c)->fd, b + done, n - done); if (r < 0) { if (errno == EINTR) continue; return done ? done : 0; } done += r; } return n; }
static int ckSeek(void* c, off64_t* o, int w) { T* t = cur; if (t && t->f.seekErr) { t->ioFired = true; fired(FK_SEEK_ERR); errno = t->f.seekErr; return -1; } off64_t r = real_lseek64()(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; if (t) t->rd = r; return 0; }
static int ckClose(void* c) { int fd = ((Cookie*)c)->fd; int r = cur ? simClose(cur) : 0; int e = errno; real_close()(fd); __real_free(c); errno = e; return r; }
} // namespace sim

using namespace sim;
#define PC ((u32)(u64)__builtin_return_address(0))
extern "C" {
// ================================================================ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void* pc) { T* t = cur; if (!t || !t->inLib) { if (t) t->depth++ < STKMAX ? (void)(t->stk[t->depth - 1] = pcOf(pc)) : (void)0; return; } if (t->depth < STKMAX) t->stk[t->depth] = (u32)(u64)pc; t->depth++; nSteps++; u64 l = ++t->local; if (__builtin_expect(l - t->opStep0 > t->opLimit || l >= t->crashStep, 0)) stepSlow(t, (u32)(u64)pc); }
void __tsan_func_exit() { T* t = cur; if (t && t->depth > 0) t->depth--; }
#define RW(n) void __tsan_read##n(void* a) { access((u64)a, n, false, false, PC); } void __tsan_write##n(void* a) { access((u64)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false, false, PC); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access((u64)a, n, false, false, PC); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access((u64)a, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access((u64)a, n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { access((u64)a, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* a) { access((u64)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { accessRange((u64)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { accessRange((u64)a, n, true, PC); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, false, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a == v) return; access((u64)a, 8, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { u32 pc = PC; accessRange((u64)s, n, false, pc); accessRange((u64)d, n, true, pc); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { u32 pc = PC; accessRange((u64)s, n, false, pc); accessRange((u64)d, n, true, pc); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { accessRange((u64)d, n, true, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
static inline void atomPre(void* a, size_t n, bool w, u32 pc, int mo, bool isLoad, bool isStore) {
    T* t = cur; if (!t || !t->inLib) return;
    if (multi && t->inOp) { t->local++; if (cfg.mode == 0) { if (rngS.chance(cfg.pSync / 4 + 1)) point(true); } else point(false); }
    access((u64)a, n, w, true, pc);
    if (!multi) return;                                     // nothing may run between here and the operation itself
    SyncVar& s = sv(a);
    if (!isStore && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(s);
    if (!isLoad && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(s);
}
#define AT(bits, TY) \
  TY __tsan_atomic##bits##_load(const volatile TY* a, int mo) { atomPre((void*)a, sizeof(TY), false, PC, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_exchange(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_add(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_sub(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_and(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_or(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_xor(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_fetch_nand(volatile TY* a, TY v, int mo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##bits##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { atomPre((void*)a, sizeof(TY), true, PC, mo, false, false); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static SyncVar* fenceVar() { static int f; return &sv(&f); }
void __tsan_atomic_thread_fence(int mo) { if (cur && cur->inLib && multi) { SyncVar* s = fenceVar(); acquire(*s); release(*s); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ================================================================ C library memory
void* __wrap_malloc(size_t n) { if (cur && cur->inLib && !golden) { void* p = arenaAlloc(n, pcOf(__builtin_return_address(0))); if (!p) errno = ENOMEM; return p; } return __real_malloc(n); }
void __wrap_free(void* p) { int e = errno; simFree(p, __builtin_return_address(0)); errno = e; }
void* __wrap_calloc(size_t a, size_t b) { if (cur && cur->inLib && !golden) { void* p = arenaAlloc(a * b, pcOf(__builtin_return_address(0))); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) {
    if (p && (u64)p - A0 < ASZ) { u32 pc = pcOf(__builtin_return_address(0)); void* q = arenaAlloc(n, pc); if (!q) { errno = ENOMEM; return nullptr; } size_t o = ((Hdr*)((u64)p - 32))->size; memcpy(q, p, o < n ? o : n); arenaFree(p, pc); return q; }
    if (!p) return __wrap_malloc(n);
    return __real_realloc(p, n);
}
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (cur && cur->inLib && n) { u32 pc = PC; access((u64)a, n, false, false, pc); access((u64)b, n, false, false, pc); } return __real_memcmp(a, b, n); }
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* s, size_t n, const char* f, va_list ap) { int r = __real_vsnprintf(s, n, f, ap); if (cur && cur->inLib && decimalComma && s && n) { size_t L = __real_strlen(f); if (L && (f[L - 1] == 'f' || f[L - 1] == 'g' || f[L - 1] == 'e')) for (char* p = s; *p; p++) if (*p == '.') *p = ','; } return r; }
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); if (cur && cur->inLib) access((u64)a, n + 1, false, false, PC); return n; }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (cur && cur->inLib && n) access((u64)a, r ? (char*)r - (char*)a + 1 : n, false, false, PC); return r; }

// ================================================================ synchronisation
static void lockAcq(const void* m, SyncVar& s) { acquire(s); }
static void wakeAll(const void* o) { for (int i = 0; i < nT; i++) if (th[i]->st == S_BLOCK && th[i]->waitObj == o) th[i]->st = S_RUN; }
static void blockOn(const void* o) { cur->st = S_BLOCK; cur->waitObj = o; mustBlock("lock"); }
static u32 sitePc(void* ra) { u32 p = pcOf(ra); if (p) return p; T* t = cur; return t && t->depth > 0 ? t->stk[std::min(t->depth - 1, STKMAX - 1)] : 0; }
// locking memory that has been freed is an invalid access
static void lockable(const void* m, void* ra) { u64 a = (u64)m; if (a - A0 < ASZ && cur->inLib && (stt[(a - A0) >> 3] & 15) == 0) memError(a, 8, true, sitePc(ra)); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    T* t = cur; if (!t) return real_pthread_mutex_lock()(m);
    lockable(m, __builtin_return_address(0)); syncPoint(); 
    for (;;) { SyncVar& s = sv(m); if (s.owner < 0) { s.owner = t->id; s.count = 1; acquire(s); hmix(0x10c); return 0; }
        if (s.owner == t->id) { int k = m->__data.__kind & 3; if (k == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; } if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; fillStack(sitePc(__builtin_return_address(0))); die(V_DEADLOCK, "deadlock", "a thread locks a mutex it already holds", sitePc(__builtin_return_address(0))); }
        if (!multi) die(V_DEADLOCK, "deadlock", "a mutex is still locked although no other thread is running", sitePc(__builtin_return_address(0)));
        blockOn(m); }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    T* t = cur; if (!t) return real_pthread_mutex_trylock()(m); lockable(m, __builtin_return_address(0)); syncPoint(); SyncVar& s = sv(m);
    if (s.owner < 0) { s.owner = t->id; s.count = 1; acquire(s); return 0; } if (s.owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; } return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    T* t = cur; if (!t) return real_pthread_mutex_unlock()(m);
    lockable(m, __builtin_return_address(0));
    { SyncVar& s = sv(m); if (s.owner != t->id) die(V_DEADLOCK, "unlock", "a thread unlocks a mutex it does not hold", sitePc(__builtin_return_address(0))); if (--s.count > 0) return 0; s.owner = -1; release(s); }
    wakeAll(m); hmix(0x10d); syncPoint(); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { T* t = cur; if (!t) return real_pthread_rwlock_rdlock()(m); lockable(m, __builtin_return_address(0)); syncPoint(); for (;;) { SyncVar& s = sv(m); if (s.owner < 0) { s.readers++; acquire(s); return 0; } if (s.owner == t->id) return EDEADLK; if (!multi) die(V_DEADLOCK, "deadlock", "a lock is still held although no other thread is running", sitePc(__builtin_return_address(0))); blockOn(m); } }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!cur) return real_pthread_rwlock_tryrdlock()(m); syncPoint(); SyncVar& s = sv(m); if (s.owner >= 0) return EBUSY; s.readers++; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { T* t = cur; if (!t) return real_pthread_rwlock_wrlock()(m); lockable(m, __builtin_return_address(0)); syncPoint(); for (;;) { SyncVar& s = sv(m); if (s.owner < 0 && !s.readers) { s.owner = t->id; acquire(s); return 0; } if (s.owner == t->id) return EDEADLK; if (!multi) die(V_DEADLOCK, "deadlock", "a lock is still held although no other thread is running", sitePc(__builtin_return_address(0))); blockOn(m); } }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { T* t = cur; if (!t) return real_pthread_rwlock_trywrlock()(m); syncPoint(); SyncVar& s = sv(m); if (s.owner >= 0 || s.readers) return EBUSY; s.owner = t->id; acquire(s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { T* t = cur; if (!t) return real_pthread_rwlock_unlock()(m); { SyncVar& s = sv(m); if (s.owner == t->id) { s.owner = -1; release(s); } else if (s.readers > 0) { s.readers--; release(s); } else die(V_DEADLOCK, "unlock", "a thread unlocks a lock it does not hold", sitePc(__builtin_return_address(0))); } wakeAll(m); syncPoint(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { T* t = cur; if (!t) return real_pthread_cond_wait()(c, m); { SyncVar& s = sv(m); s.owner = -1; s.count = 0; release(s); } wakeAll(m); blockOn(c); return pthread_mutex_lock(m); }
static int condTimed(pthread_cond_t* c, pthread_mutex_t* m, int64_t at) { T* t = cur; { SyncVar& s = sv(m); s.owner = -1; s.count = 0; release(s); } wakeAll(m); t->st = S_SLEEP; t->wakeAt = at; t->waitObj = c; t->timedOut = false; mustBlock("cond"); bool to = t->timedOut; t->timedOut = false; pthread_mutex_lock(m); return to ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!cur) return real_pthread_cond_timedwait()(c, m, ts); return condTimed(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return condTimed(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c) { if (!cur) return real_pthread_cond_signal()(c); for (int i = 0; i < nT; i++) if ((th[i]->st == S_BLOCK || th[i]->st == S_SLEEP) && th[i]->waitObj == c) { th[i]->st = S_RUN; break; } syncPoint(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!cur) return real_pthread_cond_broadcast()(c); for (int i = 0; i < nT; i++) if ((th[i]->st == S_BLOCK || th[i]->st == S_SLEEP) && th[i]->waitObj == c) th[i]->st = S_RUN; syncPoint(); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    T* t = cur; if (!t) return real_pthread_once()(o, fn);
    syncPoint();
    for (;;) { SyncVar& s = sv(o); if (s.state == 2 || *(volatile int*)o == 2) { acquire(s); return 0; } if (s.state == 0) { s.state = 1; acquire(s); try { fn(); } catch (...) { SyncVar& s1 = sv(o); s1.state = 0; release(s1); wakeAll(o); throw; } SyncVar& s2 = sv(o); s2.state = 2; *(volatile int*)o = 2; release(s2); wakeAll(o); return 0; } blockOn(o); }
}
int __cxa_guard_acquire(__cxxabiv1::__guard* g) {
    T* t = cur; volatile char* b = (volatile char*)g;
    if (!t) { if (*b) return 0; return 1; }
    syncPoint();
    for (;;) { SyncVar& s = sv(g); if (*b) { acquire(s); return 0; } if (s.state == 0) { s.state = 1; s.owner = t->id; acquire(s); return 1; } if (s.owner == t->id) die(V_CRASH, "crash", "recursive initialisation of a function-local static", sitePc(__builtin_return_address(0))); blockOn(g); }
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { volatile char* b = (volatile char*)g; if (cur) { SyncVar& s = sv(g); s.state = 2; s.owner = -1; release(s); *b = 1; wakeAll(g); syncPoint(); } else *b = 1; }
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { if (cur) { SyncVar& s = sv(g); s.state = 0; s.owner = -1; release(s); wakeAll(g); } }
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!cur || !cur->inLib) return real_pthread_create()(pt, a, fn, arg);
    if (nT >= MAXT) return EAGAIN; OutLib o; bool was = multi; multi = true; (void)was; T* t = newThread(); t->fn = fn; t->arg = arg; release(sv(t)); for (int k = 0; k < MAXT; k++) if (k != t->id) t->vc[k] = cur->vc[k]; t->st = S_RUN; t->prio = 50; startReal(t); *pt = t->pt; setNextPre(cur); return 0;
}
int pthread_join(pthread_t pt, void** ret) {
    if (!cur) return real_pthread_join()(pt, ret);
    for (int i = 0; i < nT; i++) if (th[i]->fn && th[i]->pt == pt) { while (th[i]->st != S_DONE) blockOn(th[i]); acquire(sv(th[i])); if (ret) *ret = th[i]->ret; return 0; }
    return real_pthread_join()(pt, ret);
}
int sched_yield() { if (!cur) return real_sched_yield()(); T* t = cur; t->local += 50; nSteps += 50; if (t->local - t->opStep0 > t->opLimit) hang(); if (multi) point(true); return 0; }
int nanosleep(const struct timespec* r, struct timespec* m) { if (!cur) return real_nanosleep()(r, m); sleepNs(r->tv_sec * 1000000000ll + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec*) { if (!cur) return 0; int64_t v = r->tv_sec * 1000000000ll + r->tv_nsec; sleepNs(fl & TIMER_ABSTIME ? v - simNow : v); return 0; }
int usleep(useconds_t u) { if (!cur) return real_usleep()(u); sleepNs((int64_t)u * 1000); return 0; }

// ================================================================ clock
int clock_gettime(clockid_t c, struct timespec* ts) { if (!cur) return real_clock_gettime()(c, ts); int64_t v = readClockNs(); if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) v -= cfg.clock0 - 1000000000000ll; ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } return 0; }
int gettimeofday(struct timeval* tv, void* z) { if (!cur) { struct timespec ts; real_clock_gettime()(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } int64_t v = readClockNs(); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
time_t time(time_t* t) { if (!cur) return real_time()(t); int64_t v = readClockNs(); time_t s = v / 1000000000; if (v % 1000000000 < 0) s--; if (t) *t = s; return s; }
static struct tm simStaticTm;                               // the C library's shared result of localtime/gmtime
static struct tm* sharedTm(const time_t* t, bool local, void* ra) {
    struct tm r; time_t v = *t; { OutLib o; tzset(); if (local) real_localtime_r()(&v, &r); else real_gmtime_r()(&v, &r); }
    access((u64)&simStaticTm, 36, true, false, sitePc(ra)); simStaticTm = r; return &simStaticTm;
}
struct tm* localtime(const time_t* t) { if (!cur) return real_localtime()(t); return sharedTm(t, true, __builtin_return_address(0)); }
struct tm* gmtime(const time_t* t) { if (!cur) return real_gmtime()(t); return sharedTm(t, false, __builtin_return_address(0)); }
struct tm* localtime_r(const time_t* t, struct tm* r) { return real_localtime_r()(t, r); }
struct tm* gmtime_r(const time_t* t, struct tm* r) { return real_gmtime_r()(t, r); }

// ================================================================ file I/O (called by libstdc++ and by the code under test)
ssize_t read(int fd, void* b, size_t n) { if (!ioOn()) return real_read()(fd, b, n); return simRead(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (!ioOn()) return real_write()(fd, b, n); return simWriteBytes(fd, (const char*)b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (!ioOn()) return real_writev()(fd, v, c); return simWritev(fd, v, c); }
ssize_t readv(int fd, const struct iovec* v, int c) { if (!ioOn()) return real_readv()(fd, v, c); for (int i = 0; i < c; i++) if (v[i].iov_len) return simRead(fd, v[i].iov_base, v[i].iov_len); return 0; }
static int64_t seekCommon(int fd, int64_t o, int w) { T* t = cur; if (t->f.seekErr) { t->ioFired = true; fired(FK_SEEK_ERR); errno = t->f.seekErr; return -1; } int64_t r = real_lseek64()(fd, o, w); if (r >= 0) t->rd = r; return r; }
off_t lseek(int fd, off_t o, int w) { if (!ioOn()) return real_lseek()(fd, o, w); return seekCommon(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (!ioOn()) return real_lseek64()(fd, o, w); return seekCommon(fd, o, w); }
int close(int fd) { if (!ioOn()) return real_close()(fd); int r = simClose(cur), e = errno; real_close()(fd); errno = e; return r; }
// The code under test may be changed to touch files by any call: whatever would create, replace or remove a name
// outside the run's scratch directory (or /tmp) is refused here and never reaches the system.
static char containDir[512];
static bool outside(const char* p) {
    if (!ioOn() || !p) return false; char full[PATH_MAX + 600]; if (!strcmp(p, "/dev/null")) return false;
    if (*p == '/') snprintf(full, sizeof full, "%s", p); else { char cwd[PATH_MAX]; if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return true; snprintf(full, sizeof full, "%s/%s", cwd, p); }
    size_t n = strlen(containDir); bool in = !strstr(full, "/..") && ((n && !strncmp(full, containDir, n) && full[n] == '/') || !strncmp(full, "/tmp/", 5)); if (!in) { cur->ioFired = true; fired(FK_OPEN_ERR); errno = EACCES; } return !in;
}
static bool writes(const char* m) { return strpbrk(m, "wa+") != nullptr; }
static FILE* openCommon(const char* p, const char* m, void* ra) {
    T* t = cur; ioEnter(t); if (t->f.openErr) { t->ioFired = true; fired(FK_OPEN_ERR); errno = t->f.openErr; return nullptr; }
    if (writes(m) && outside(p)) return nullptr;
    OutLib o; FILE* f = real_fopen()(p, m); if (!f || !exePc(ra)) return f;
    int fd = dup(fileno(f)); real_fclose()(f); Cookie* c = (Cookie*)__real_malloc(sizeof(Cookie)); c->fd = fd; cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose}; return fopencookie(c, m, io);
}
FILE* fopen(const char* p, const char* m) { if (!ioOn()) return real_fopen()(p, m); return openCommon(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { if (!ioOn()) return real_fopen()(p, m); return openCommon(p, m, __builtin_return_address(0)); }
int fclose(FILE* f) { if (!ioOn() || fileno(f) < 0) return real_fclose()(f); int r = simClose(cur), e = errno; { OutLib o; real_fclose()(f); } errno = e; return r; }
// direct descriptors, names and durability: rarely used by a document library, but a save may be changed to use them
static int openFd(const char* p, int fl, mode_t mo) { T* t = cur; ioEnter(t); if (t->f.openErr) { t->ioFired = true; fired(FK_OPEN_ERR); errno = t->f.openErr; return -1; } if ((fl & (O_ACCMODE | O_CREAT | O_TRUNC)) && outside(p)) return -1; return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mo); }
static mode_t modeOf(int fl, va_list a) { return fl & (O_CREAT | O_TMPFILE) ? (mode_t)va_arg(a, int) : 0; }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = modeOf(fl, a); va_end(a); return ioOn() ? openFd(p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = modeOf(fl, a); va_end(a); return ioOn() ? openFd(p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = modeOf(fl, a); va_end(a); if (!ioOn() || (d != AT_FDCWD && *p != '/' && !(fl & (O_ACCMODE | O_CREAT | O_TRUNC)))) return (int)syscall(SYS_openat, d, p, fl, m); if (d != AT_FDCWD && *p != '/') { errno = EACCES; return -1; } return openFd(p, fl, m); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// true: the late failure of this call (the one close() reports) hits here
static bool lateFail(T* t) {
    ioEnter(t); if (t->f.crashAt >= 0 && t->wr >= t->f.crashAt) { fired(FK_CRASH_IO); rep->crashed = 1; finishReport(); _exit(77); }
    if (t->f.closeErr && t->wr > 0) { t->ioFired = true; fired(FK_CLOSE_ERR); errno = t->f.closeErr; return true; } return false;
}
#define LATE(call) return ioOn() && lateFail(cur) ? -1 : (int)(call)
int rename(const char* a, const char* b) { if (outside(a) || outside(b)) return -1; LATE(syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b)); }
int renameat(int d, const char* a, int e, const char* b) { if (outside(a) || outside(b)) return -1; LATE(syscall(SYS_renameat, d, a, e, b)); }
int renameat2(int d, const char* a, int e, const char* b, unsigned f) { if (outside(a) || outside(b)) return -1; LATE(syscall(SYS_renameat2, d, a, e, b, f)); }
int symlink(const char* a, const char* b) { if (outside(b)) return -1; LATE(syscall(SYS_symlinkat, a, AT_FDCWD, b)); }
int mkdir(const char* p, mode_t m) { if (outside(p)) return -1; return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int rmdir(const char* p) { if (outside(p)) return -1; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char* p, int f) { if (outside(p)) return -1; return (int)syscall(SYS_unlinkat, d, p, f); }
int chmod(const char* p, mode_t m) { if (outside(p)) return -1; return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int link(const char* a, const char* b) { if (outside(a) || outside(b)) return -1; LATE(syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int fsync(int fd) { LATE(syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { LATE(syscall(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n) { LATE(syscall(SYS_ftruncate, fd, n)); }
int truncate(const char* p, off_t n) { if (outside(p)) return -1; LATE(syscall(SYS_truncate, p, n)); }
int unlink(const char* p) { if (ioOn()) ioEnter(cur); if (outside(p)) return -1; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int remove(const char* p) { if (outside(p)) return -1; int r = unlink(p); return r < 0 && (errno == EISDIR || errno == EPERM) ? rmdir(p) : r; }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (ioOn()) { if (real_lseek64()(fd, o, SEEK_SET) < 0) return -1; cur->rd = o; return simRead(fd, b, n); } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (!ioOn()) return syscall(SYS_pwrite64, fd, b, n, o); if (real_lseek64()(fd, o, SEEK_SET) < 0) return -1; return simWriteBytes(fd, (const char*)b, n); }
// randomness belongs to the run's seed
static void fillRandom(void* b, size_t n) { static Rng r(cfg.schedSeed ^ 0x5eedull); for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)r.below(256); }
ssize_t getrandom(void* b, size_t n, unsigned f) { if (!cur) return syscall(SYS_getrandom, b, n, f); fillRandom(b, n); return n; }
int getentropy(void* b, size_t n) { if (!cur) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; fillRandom(b, n); return 0; }
} // extern C
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() { unsigned v; getrandom(&v, sizeof v, 0); return v; }
namespace sim { void contain(const char* d) { snprintf(containDir, sizeof containDir, "%s", d); if (chdir(d)) {} } bool waitOn(const void* o) { if (!cur || !multi) return false; blockOn(o); return true; } void wakeOn(const void* o) { if (cur) wakeAll(o); } }

// ================================================================ operator new/delete
static void* newOrThrow(size_t n, void* ra) { void* p = simNew(n, ra); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return newOrThrow(n, __builtin_return_address(0)); }
void* operator new[](size_t n) { return newOrThrow(n, __builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { simFree(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { simFree(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { simFree(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { simFree(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p, __builtin_return_address(0)); }
