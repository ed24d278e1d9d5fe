// Data shared between the driver (driver.cpp) and the simulator kernel (kernel.cpp).
#pragma once
#include "sim.h"

constexpr int MAXT = 4;        // simulated caller threads
constexpr int NPARK = 48, NSTK = 32;   // kernel threads and stacks they are chosen from
constexpr int MAXD = 56;       // calls per run (top level + nested + re-entrant)
constexpr int MAXI = 6000;     // trace items
constexpr int MAXLVL = 5;      // nesting depth on one thread
constexpr u64 INF = u64(1) << 62;

constexpr u64 ARENA_SZ = 0x10000, PG = 4096, STACK_SZ = 0x40000, TSTACK_SZ = 0x40000;
// the arena, the pages of single destinations and the stacks lie across places where 32-bit arithmetic on addresses wraps or changes sign
constexpr u64 A_SHARED = 0x110000000000ull, A_ARENA = 0x120000000000ull - 2 * PG, A_GUARD = 0x130080000000ull - 8 * PG,
	A_STACK = 0x140000000000ull - 2 * STACK_SZ + PG, A_TSTACK = 0x150000000000ull, A_ALT = 0x160000000000ull, A_HEAP = 0x170000000000ull,
	A_DHEAP = 0x178000000000ull, A_KERN = 0x180000000000ull, A_SNAP = 0x190000000000ull, A_BULK = 0x1a0000000000ull;

// instead: on the caller's own stack, on that of another thread, in static data, in the caller's thread-local storage, on the heap
enum Place : u8 { P_NONE = 0, P_STACK, P_OTHER, P_STATIC, P_TLS, P_HEAP, NPLACE };
enum Layout : u8 { L_PACKED = 0, L_GUARD_END, L_GUARD_BEGIN };

enum Kind : u8 {
	K_RUN = 0,   // run thread t for n steps
	K_RUNOP,     // run thread t until its current (or next) call returns, without preemption
	K_NEST,      // a signal handler on thread t calls the library (desc a) on top of the interrupted call
	K_KILL,      // thread t abandons everything in progress (longjmp / async cancel), goes on with its next call
	K_VANISH,    // thread t disappears (killed)
	K_FORK,      // the process forks inside thread t: every other thread is gone from here on
	K_STALL,     // thread t is suspended indefinitely
	K_UNSTALL,   // every stalled thread resumes (faults stop)
	K_ENV,       // FP environment of thread t changes under its feet: mxcsr = n, x87 control = a
	K_TAMPER,    // a byte of the destination of thread t's current call is overwritten from outside
	K_NEIGH,     // the owner of a neighbouring byte writes it
	K_LOC,       // another component switches the process locale (a: 0 C, 1 comma/grouping)
	K_CLOCK,     // wall clock jumps by n
	K_AFAIL,     // allocation/system-call failure switched on/off (a)
	K_MIGRATE,   // thread t, waiting inside a callback, continues on another kernel thread (a): they swap thread-local storage
	NKIND
};
extern const char* const kind_name[NKIND];

struct Item { u8 kind, t; u16 a; u32 pad; u64 n; };

struct PlanOp {
	u8 api, dbl, mode, crs, beh, layout, loc, afail;
	u64 bits;
	u32 mxcsr; u16 fcw; u8 x87dirty, reidx;   // reidx: desc index of re-entrant call, 0xff none
	i32 err0; u32 slot;                        // slot: offset of the destination in the arena / guard page
	u16 len; u8 nul, place;                      // expected number of characters, and whether a NUL follows
	u32 refsteps; u32 reps;                    // reps: how often the call is made again afterwards
	u32 exc;                                   // made while an exception of the caller's travels up the stack (1), or is being handled (2)
};

struct OpRes {
	u8 started, done, abandoned, tampered, overrun, envbad, errbad, locbad;
	u32 mxcsr; u16 fcw, fsw; u32 ftw; i32 err;
	u64 steps; u64 stack;
	u64 sig; i64 exp; u64 neg; u64 cls; u64 threw; u64 hcalls, hbits;
	i64 endoff; u8 text[48];
	u64 allocs, syscalls; u32 nexec, nfin, repdiff, effect;   // effect: what it did to the world outside (Effect, or E_SYSCALL + number)
	i64 lives;
};
enum Effect : u32 { E_NONE = 0, E_RAND, E_ENVIRON, E_LOCALE, E_HANDLER, E_STREAM, E_STDOUT, E_SIGMASK, E_STRTOK, E_THREADLOC, E_CANCEL, E_STATIC, E_SYSCALL = 1000 };
// what calls can leave behind
enum { U_BLOCKS = 0, U_BYTES, U_MAPPED, U_FILES, U_ATEXIT, U_TEXIT, U_KEYS, NRES, U_COST = NRES, U_TOTAL, NUSE };   // U_COST, U_TOTAL: steps taken by the dearest call, and by all
constexpr u32 MAXPASS = 256;

enum Status : u32 { S_NONE = 0, S_OK, S_CRASH, S_CONTAIN, S_BUDGET, S_HANG, S_INTERNAL };

struct RunIn {
	u32 nthreads, ndesc, online, engine;
	u64 seed;
	u8 q[MAXT][MAXD]; u8 qn[MAXT];
	u8 nestq[MAXD]; u8 nnest;
	PlanOp op[MAXD];
	u32 arena_used; u64 fill_seed; u8 pre[MAXD][32];   // pre: leftovers in each destination (only if the first byte is set)
	u32 stack_bytes;     // usable stack per thread
	u32 budget;          // steps one call may take
	u32 contain;         // C05: every store checked against the owner map
	u32 lateinit;        // static initialisers run as an operation, not beforehand
	u32 check_env;       // compare the FP environment/errno/locale at return
	u32 clock_random;    // every clock reading is random
	u32 init_locale;     // locale during start-up
	u32 afail0;          // requests that fail from the start (see refuse())
	u32 stack_shift;     // callers' stacks start that much lower
	u64 tso;             // not 0: stores to the library's static data reach the other callers late (x86 store buffers; insn engine)
	u8 succ[MAXT];       // succ[u] = t + 1: caller u is a new thread in the place of caller t once that one is gone
	u32 passes;          // the whole plan is executed that many times in a row, each time under the same schedule
	u32 newthreads;      // ... by new threads every time
	u32 heaplock;        // calls inside malloc or free hold a lock
	u32 effects;         // side effects are looked for
	u32 pid; u8 tsel[MAXT], ssel[MAXT]; u32 tid[MAXT];   // which kernel thread (thread-local storage), stack and thread number each caller has
	u32 unmap_done;      // destinations on pages of their own are unmapped once their call is over
	// online decider
	u32 style, meanlen, maxitems;
	u32 p[NKIND];        // per mille probability of each fault kind
	u32 p_runop, p_hot;
	u32 nitems_in;       // offline: explicit trace
};

struct RunOut {
	u32 status, crash_sig, crash_t, crash_d; u64 crash_addr, crash_rip, crash_step;
	u32 viol_d; u32 viol_off; u32 viol_t, viol_old, viol_new;
	u32 budget_t, budget_d;
	u64 hash, steps, slices, switches, ilhash;
	u64 fired[NKIND]; u64 hot, skipped, syscalls, allocs, allocfails, tscs; u64 clockns; u32 lastsys; u32 nested_max; u64 sbdelays;
	u64 fault_in_flight;   // faults that landed while a call was in progress
	u32 nitems, npass; i64 use[MAXPASS][NUSE];
	OpRes r[MAXD];
};

struct Shared {
	RunIn in;
	RunOut out;
	Item items[MAXI];
	OpDesc d[MAXD];
	u8 cov[16384];
	u8 refcrash[MAXD];
};
#define SH (reinterpret_cast<Shared*>(A_SHARED))


// ---- bulk mode: many calls, one after another, in one process ------------------------------------
struct BulkProf {           // environment profile of a bulk history
	u8 env, contain, afail, loc, dirty, check, stack8k, place, effects, exc; u8 pad[6];   // place: destinations and stacks lie anywhere
	u64 seed;
};
constexpr u32 MAXBULK = 1u << 18;
inline const char kAlpha[33] = "0123456789.E-+e,NaInfty 0.E-00\0";   // 32 bytes that appear in (or next to) results
struct BulkOp { u8 api, dbl, mode, crs; u32 slotfill; u64 bits; };
struct BulkShared {
	u32 n, order, nerr, scout, stopped, crash_i, crash_sig, pad;  // order 0: 0..n-1, 1: reverse, 2: shuffled by seed
	u64 hots_total, allocs, syscalls, steps; 
	BulkProf prof;
	struct { u32 i, what; u64 detail; } err[64];
	BulkOp op[MAXBULK];
	u64 dig[2][MAXBULK];     // result digests (profile run, quiet run)
	u8 len[MAXBULK];         // bytes the call may write (from the quiet run)
	u64 haddr[MAXBULK][4];   // distinct ones among the addresses it stored to (scout)
	u32 rare[MAXBULK];       // the least frequent of the features (edge, times taken) of each call (scout)
	u32 ffreq[1 << 18];      // how often each feature was seen so far
	u64 konst[4096]; u32 nkonst;   // constants the library compared something with (scout)
	u32 hot[MAXBULK];        // writable static/thread-local/heap accesses seen during the call
};
constexpr u32 MAXLONG = 4096;
struct LongShared { u64 seed, calls, total, fail_at; u32 fail_i, fail_effect, segs, newthreads, cost, done, fresh; i64 use[64][NUSE]; u32 opcost[3][MAXLONG];   // what each call costs early, half way and late
	BulkProf prof; u64 want[MAXLONG]; double secs; };   // a very long history of BK->op[0..n)
#define LG (reinterpret_cast<LongShared*>(A_BULK + ((sizeof(BulkShared) + PG) & ~(PG - 1))))
#define BK (reinterpret_cast<BulkShared*>(A_BULK))
enum BulkErr { BE_ENV = 1, BE_ERRNO, BE_LOCALE, BE_CONTAIN, BE_THROW, BE_EFFECT, BE_NONE };

// kernel entry points used by the driver
void kern_init();                  // once, in the pristine template
void kern_run_child();             // in a freshly forked child: executes SH->in, fills SH->out, never returns
void kern_ref_child();             // in a freshly forked child: every call of SH->in alone, in a pristine image
void kern_bulk_child(int which);   // in a freshly forked child: BK->op in BK->order, under BK->prof (which 0) or quiet (1)
void kern_long_child();
void kern_leak_child();
int kern_ninit(); int kern_nfini();
extern "C" { extern const int sut_engine; extern const char sut_variant[]; extern bool kern_have_locale; }

static inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	bool chance(u32 permille) { return below(1000) < permille; }
};
