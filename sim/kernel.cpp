// The simulator kernel: a tiny operating system inside one process. It owns the scheduling of the simulated
// caller threads, their stacks, thread-local storage, FP environment, signals, allocator, system calls and
// clock. Everything it does is a function of the plan and the trace in Shared::in / Shared::items.
#include "kernel.h"
#include <cerrno>
#include <clocale>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <iostream>
#include <locale>
#include <pthread.h>
#include <elf.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/ucontext.h>
#include <time.h>
#include <unistd.h>

const char* const kind_name[NKIND] = { "run", "run_op", "signal_call", "kill", "vanish", "fork", "stall", "resume_all",
	"fp_env_flip", "tamper", "neighbour_write", "locale_switch", "clock_jump", "alloc_fail_switch", "thread_migration" };

#define SIMRT __attribute__((section("simrt"), noinline))
enum { SUD_ALLOW = 0, SUD_BLOCK = 1 };

constexpr u32 FPMAX = 12288;
struct alignas(64) Ctx { u8 fp[FPMAX]; u64 g[23]; u32 fpsize; };

struct Thread {
	u8 inop, vanished, stalled, nlvl;
	u8 desc[MAXLVL]; u8 unw[MAXLVL]; u8 drop[MAXLVL];
	u32 qpos;
	u64 fs; int* err;
	u64 ownmx[MAXLVL]; u16 ownfcw[MAXLVL]; u16 ownfsw[MAXLVL]; u32 ownftw[MAXLVL];
	Ctx cur, saved[MAXLVL];
};

struct SbEnt { u64 a; u32 n; u8 was[24], is[24]; };
constexpr u32 SBMAX = 56, SBREG = 16384;
struct Park { u64 fs; int* err; };
struct Fds { u64 b[16]; bool has(u64 f) const { return f < 1024 && (b[f / 64] >> f % 64 & 1); } bool add(u64 f) { if (f >= 1024) return false; b[f / 64] |= u64(1) << f % 64; return true; } void del(u64 f) { b[f / 64] &= ~(u64(1) << f % 64); } };
struct AllocArena { u64 base, cur, lim; void* fl[64]; };

struct Kern {
	volatile i64 cd;         // steps until the scheduler takes over
	volatile i64 hotcd;      // accesses to writable static data / TLS / heap until it does
	u64 hash;
	u64 hots;
	u32 contain; u32 cviol;
	u64 c_lo, c_hi, cv_addr, cv_size;
	u64 w_lo, w_len;         // writable part of the executable
	u8 cov[16384];
	volatile u8 selector;
	u8 in_kernel, running, mode;   // mode 0 sim, 1 ref, 2 bulk
	volatile u8 in_sut;
	u8 afail, quiet, tf, ended, clockjumpy;
	int curt; u64 slice_n; u8 slice_runop, phase, hotcut; u32 burst, bpad; u64 ha[4]; u32 nha;
	u32 ipos, curitem, rr; u64 lastfaulthot;
	u64 clock; u64 clockrng; u64 clkoff[4];
	Rng rng{1};
	u64 allocs, allocfails, syscalls, tscs; u32 lastsys; u8 areq[MAXT];   // requests made by a caller's current call
	u32 pid, tid[MAXT]; u8 born[MAXT]; u64 tls_n;
	u8 tso, sbfence, sbstep; u32 sbpend; u64 sbpa; u64 sb_heap; u32 sbn[MAXT]; SbEnt sb[MAXT][SBMAX]; u64 sb_lo[2], sb_len[2]; u8 sbshadow[SBREG]; Rng sbrng{1};
	Thread th[MAXT]; Park park[NPARK];
	Ctx base; u8 have_base;
	u8 shadow[ARENA_SZ];
	u8 gshadow[MAXD][PG];
	u32 dlen[MAXD];
	u8 dstate[MAXD];         // 0 not started 1 running 2 over
	u8 inits_done, finis_done;
	struct { void (*f)(void*); void* a; } atex[256], tatex[MAXT][32]; u32 natex, ntatex[MAXT];
	u32 refi; u32 drain_budget_hits; volatile u32 hlock;
	char* bulk_buf; u32 bulk_i; int bulk_which; u8 bulk_window[192];
	u64 snap_lo[8], snap_n[8]; u32 nsnap;
	u32 cloc;
	Fds fds; i64 brk; i64 use[NUSE]; u32 effect; u8 looking, leak; u64 sigmask[MAXT]; u8 pass_item; u32 pass;
	u64 tick, beat; u8 scouting, scouting0; u32 nft; u16 ft[4096]; u8 fc[1 << 16];
};
#define K (*reinterpret_cast<Kern*>(A_KERN))
static bool g_up;            // A_KERN is mapped

// ---- code the system under test may call -------------------------------------------------------------
extern "C" {
	void sim_op_done(); void sim_cb_trap(); void sim_hook_trap(OpDesc*); void sim_hook_trap_ip(); void sim_start_trap(); void sim_restorer(); void sim_restorer_end();
	void sim_stackcall(u64 top, void* fn, void* arg);
	extern char __start_simrt[], __stop_simrt[];
}
asm(R"(
.section simrt,"ax",@progbits
.globl sim_op_done, sim_cb_trap, sim_hook_trap, sim_hook_trap_ip, sim_start_trap
sim_op_done: int3
	hlt
sim_cb_trap: int3
	ret
sim_hook_trap:
sim_hook_trap_ip: int3
	ret
sim_start_trap: int3
	hlt
.globl sim_stackcall
sim_stackcall:
	push %rbp
	mov %rsp,%rbp
	mov %rdi,%rsp
	mov %rdx,%rdi
	call *%rsi
	mov %rbp,%rsp
	pop %rbp
	ret
.p2align 12
.globl sim_restorer, sim_restorer_end
sim_restorer: mov $15,%eax
	syscall
	hlt
sim_restorer_end: nop
.previous
)");

static inline long ksys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
	register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
	long r; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static void kmsg(const char* s) { ksys(SYS_write, 2, long(s), strlen(s)); }
static inline u64 getfs() { u64 v; asm volatile("rdfsbase %0" : "=r"(v)); return v; }
static bool g_fsgsbase;
static inline void setfs(u64 v) {
	if (g_fsgsbase) asm volatile("wrfsbase %0" :: "r"(v) : "memory");
	else ksys(SYS_arch_prctl, 0x1002, v);
}
static inline void setmx(u32 v) { asm volatile("ldmxcsr %0" :: "m"(v)); }
static inline u32 getmx() { u32 v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static inline void setcw(u16 v) { asm volatile("fldcw %0" :: "m"(v)); }
static inline u16 getcw() { u16 v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
static inline u16 getsw() { u16 v; asm volatile("fnstsw %0" : "=m"(v)); return v; }

// ---- allocator -----------------------------------------------------------------------------------
static AllocArena g_drv;       // the driver's and kernel's own
static AllocArena g_sut;
static void arena_up(AllocArena& a, u64 base, u64 size) {
	mmap((void*)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	a.base = a.cur = base; a.lim = base + size;
}
static SIMRT u32 szclass(u64 n, u64* sz) {
	if (n <= 512) { u32 c = u32((n + 15) / 16); if (!c) c = 1; *sz = c * 16; return c - 1; }
	u32 b = 64 - __builtin_clzll(n - 1); *sz = u64(1) << b; return 32 + b - 10;
}
static SIMRT void* a_alloc(AllocArena& a, u64 n, u64 align) {
	u64 sz; u32 c = szclass(n, &sz);
	if (align <= 16 && a.fl[c]) { void* p = a.fl[c]; a.fl[c] = *(void**)p; ((u64*)p)[-2] = c; return p; }
	u64 p = a.cur + 16; if (align < 16) align = 16;
	p = (p + align - 1) & ~(align - 1);
	if (p + sz > a.lim) return nullptr;
	((u64*)p)[-1] = sz; ((u64*)p)[-2] = c; a.cur = p + sz;
	return (void*)p;
}
// K.afail says which requests of a call are refused: 0 none, 1 all, otherwise bit k the (k+1)th (and bit 7 all later ones)
static SIMRT bool refuse() {
	if (!K.afail) return false;
	u8& n = K.areq[K.mode == 0 && K.curt >= 0 ? K.curt : 0]; const u32 q = n; if (q < 7) ++n;
	if (K.afail != 1 && !(K.afail >> q & 1)) return false;
	++K.allocfails; return true;
}
static SIMRT bool in_sut() { return g_up && K.in_sut && !K.in_kernel; }
// The heap is not re-entrant: requests of the library's calls go one at a time, and one that is cut off or suspended in
// the middle keeps the lock (in.heaplock; fork releases it, as in glibc).
static inline __attribute__((always_inline)) void step(u64 pc); static inline __attribute__((always_inline)) void hot();
static SIMRT bool unwinding() { return K.mode == 0 && K.curt >= 0 && K.th[K.curt].nlvl && K.th[K.curt].unw[K.th[K.curt].nlvl - 1]; }
static SIMRT bool heap_lock() {
	if (K.mode != 0 || !SH->in.heaplock || K.curt < 0 || unwinding() || !K.th[K.curt].nlvl || SH->in.op[K.th[K.curt].desc[K.th[K.curt].nlvl - 1]].api >= A_INIT) return false;
	const u32 me = u32(K.curt) + 1;
	for (;;) { step(0x11); hot(); if (!K.hlock) break; ksys(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
	K.hlock = me; step(0x12); hot(); return true;
}
static SIMRT void heap_unlock(bool l) { if (l) { step(0x13); hot(); K.hlock = 0; } }
static SIMRT void* g_alloc(u64 n, u64 align) {
	if (in_sut()) {
		const bool unw = unwinding();
		++K.hots;
		if (!unw) { ++K.allocs; if (refuse()) return nullptr; }
		const bool l = heap_lock();
		void* p = a_alloc(g_sut, n, align); heap_unlock(l); if (p) { ++K.use[U_BLOCKS]; K.use[U_BYTES] += i64(((u64*)p)[-1]); }
		return p;
	}
	if (!g_drv.base) arena_up(g_drv, A_DHEAP, u64(1) << 33);
	return a_alloc(g_drv, n, align);
}
static SIMRT void g_free(void* p) {
	if (!p) return;
	const bool sut = u64(p) >= A_HEAP && u64(p) < A_DHEAP; AllocArena& a = sut ? g_sut : g_drv;
	u64 c = ((u64*)p)[-2]; if (c >= 64) __builtin_trap();      // (also: freed twice)
	const bool l = sut && in_sut() && heap_lock();
	if (sut) { --K.use[U_BLOCKS]; K.use[U_BYTES] -= i64(((u64*)p)[-1]); ((u64*)p)[-2] = c | 0x100; u64 n = ((u64*)p)[-1]; for (u64 i = 0; i < n / 8; ++i) ((u64*)p)[i] = 0xfdfdfdfdfdfdfdfdull; }
	*(void**)p = a.fl[c]; a.fl[c] = p; heap_unlock(l);
}
extern "C" {
	SIMRT void* malloc(size_t n) { void* p = g_alloc(n, 16); if (!p) errno = ENOMEM; return p; }
	SIMRT void free(void* p) { g_free(p); }
	SIMRT void* calloc(size_t a, size_t b) {
		size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
		void* p = malloc(n); if (p) memset(p, 0, n); return p;
	}
	SIMRT void* realloc(void* p, size_t n) {
		if (!p) return malloc(n);
		if (!n) { g_free(p); return nullptr; }
		u64 o = ((u64*)p)[-1]; if (n <= o) return p;
		void* q = malloc(n); if (!q) return nullptr;
		memcpy(q, p, o); g_free(p); return q;
	}
	SIMRT void* memalign(size_t al, size_t n) { void* p = g_alloc(n, al); if (!p) errno = ENOMEM; return p; }
	SIMRT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
	SIMRT int posix_memalign(void** r, size_t al, size_t n) { void* p = g_alloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
	SIMRT size_t malloc_usable_size(void* p) { return p ? ((u64*)p)[-1] : 0; }
}

// ---- simulated clock and ambient sources -----------------------------------------------------------
// Quiet: a machine that was booted 1000 s ago, in 2023, and a process that has used no processor time yet. Otherwise
// every reading is arbitrary, at every order of magnitude; the monotonic and the processor clock only never go back.
enum { CL_WALL = 0, CL_MONO, CL_CPU, CL_TSC };
static SIMRT u64 sim_clock(int kind) {   // nanoseconds, ticks for the TSC
	K.clock += 50;
	const u64 up = K.clock - 1000000000000ull;
	if (!K.clockjumpy) return kind == CL_WALL ? 1700000000000000000ull + up + K.clkoff[0] : kind == CL_MONO ? K.clock : kind == CL_CPU ? up : 3 * K.clock;
	K.clockrng = mix64(K.clockrng);
	u64 x = K.clockrng >> 1 >> (mix64(K.clockrng) % 62);
	if (kind == CL_WALL || kind == CL_TSC) return x;
	u64& c = K.clkoff[kind]; x >>= c ? 12 : 4; if (c + x < u64(1) << 61) c += x;
	return c;
}
extern "C" {
	static SIMRT int clock_kind(int id) { return id == 0 || id == 5 || id == 8 || id == 11 ? CL_WALL : id == 2 || id == 3 ? CL_CPU : CL_MONO; }
	SIMRT int clock_gettime(clockid_t id, struct timespec* ts) {
		if (!g_up || !K.running) return int(ksys(SYS_clock_gettime, id, long(ts)));
		u64 c = sim_clock(clock_kind(id)); ts->tv_sec = c / 1000000000; ts->tv_nsec = c % 1000000000; return 0;
	}
	SIMRT int simx_gettimeofday(struct timeval* tv, void*) { u64 c = sim_clock(CL_WALL); tv->tv_sec = c / 1000000000; tv->tv_usec = c / 1000 % 1000000; return 0; }
	SIMRT time_t simx_time(time_t* t) { u64 c = sim_clock(CL_WALL); if (t) *t = c / 1000000000; return c / 1000000000; }
	SIMRT clock_t simx_clock() { return sim_clock(CL_CPU) / 1000; }
	// callers are moved between CPUs at any time
	SIMRT int simx_sched_getcpu() { ++K.hots; if (K.quiet || K.mode == 1) return 0; K.clockrng = mix64(K.clockrng + 7); return int(K.clockrng >> 60 ? u32(K.curt) & 3 : K.clockrng & 7); }
	SIMRT int simx_getcpu(unsigned* c, unsigned* n) { int x = simx_sched_getcpu(); if (c) *c = unsigned(x); if (n) *n = 0; return 0; }
	SIMRT unsigned simx_random(void*) { ++K.hots; K.clockrng = mix64(K.clockrng + 11); return unsigned(K.clockrng >> 32); }
	// values of environment variables: common ones, and whatever words occur in the library
	static char g_words[256][32] = { "1", "0", "on", "C", "", "no", "yes", "17", "3", "-1", "de_DE.UTF-8", "en_US", "true", "2147483648", "%", "debug" }; static u32 g_nwords = 16;
	static SIMRT char* word(u64 x) { return g_words[x % ((x >> 40 & 1) ? 16 : g_nwords)]; }
	SIMRT char* simx_getenv(const char* name) {
		if (!K.clockjumpy) return nullptr;
		++K.hots;
		K.clockrng = mix64(K.clockrng + u8(name[0]));
		return (K.clockrng & 1) ? word(K.clockrng >> 20) : nullptr;
	}
	SIMRT char* simx_secure_getenv(const char* name) { return simx_getenv(name); }
	SIMRT int simx_cxa_atexit(void (*f)(void*), void* a, void*) {
		++K.use[U_ATEXIT]; if (K.natex < 256) { K.atex[K.natex].f = f; K.atex[K.natex].a = a; ++K.natex; } return 0;
	}
	SIMRT int simx_cxa_thread_atexit(void (*f)(void*), void* a, void*) {
		u32 t = K.curt >= 0 ? u32(K.curt) : 0;
		++K.allocs; ++K.hots; if (refuse()) __builtin_trap();   // as in glibc: out of memory is fatal here
		++K.use[U_TEXIT]; if (K.ntatex[t] < 32) { K.tatex[t][K.ntatex[t]].f = f; K.tatex[t][K.ntatex[t]].a = a; ++K.ntatex[t]; } return 0;
	}
	static SIMRT void call0(void* f) { ((void (*)())f)(); }
	SIMRT int simx_atexit(void (*f)()) { return simx_cxa_atexit(call0, (void*)f, nullptr); }
	// state that belongs to the application
	SIMRT void effect(u32 e);
	static SIMRT void fx(u32 e) { ++K.hots; effect(e); }
	SIMRT int simx_rand() { fx(E_RAND); return rand(); }
	SIMRT void simx_srand(unsigned s) { fx(E_RAND); srand(s); }
	SIMRT long simx_random_() { fx(E_RAND); return random(); }
	SIMRT void simx_srandom(unsigned s) { fx(E_RAND); srandom(s); }
	SIMRT double simx_drand48() { fx(E_RAND); return drand48(); }
	SIMRT long simx_lrand48() { fx(E_RAND); return lrand48(); }
	SIMRT long simx_mrand48() { fx(E_RAND); return mrand48(); }
	SIMRT void simx_srand48(long s) { fx(E_RAND); srand48(s); }
	SIMRT int simx_setenv(const char*, const char*, int) { fx(E_ENVIRON); return 0; }
	SIMRT int simx_unsetenv(const char*) { fx(E_ENVIRON); return 0; }
	SIMRT int simx_putenv(char*) { fx(E_ENVIRON); return 0; }
	SIMRT int simx_clearenv() { fx(E_ENVIRON); return 0; }
	SIMRT char* simx_strtok(char* s, const char* d) { fx(E_STRTOK); return strtok(s, d); }
	SIMRT char* simx_setlocale(int c, const char* l) { if (l) fx(E_LOCALE); return setlocale(c, l); }
	SIMRT void* simx_locale_global(void* r, const std::locale* l) { fx(E_LOCALE); return new (r) std::locale(std::locale::global(*l)); }
	SIMRT std::terminate_handler simx_set_terminate(std::terminate_handler h) { fx(E_HANDLER); return std::set_terminate(h); }
	SIMRT std::new_handler simx_set_new_handler(std::new_handler h) { fx(E_HANDLER); return std::set_new_handler(h); }
	SIMRT locale_t simx_uselocale(locale_t l) { if (l) fx(E_THREADLOC); return uselocale(l); }
	SIMRT int simx_setcancelstate(int s, int* o) { fx(E_CANCEL); return pthread_setcancelstate(s, o); }
	SIMRT int simx_setcanceltype(int s, int* o) { fx(E_CANCEL); return pthread_setcanceltype(s, o); }
	SIMRT int simx_pthread_atfork(void (*)(), void (*)(), void (*)()) { ++K.hots; if (refuse()) return ENOMEM; ++K.use[U_ATEXIT]; return 0; }
	SIMRT int simx_on_exit(void (*)(int, void*), void*) { ++K.hots; if (refuse()) return -1; ++K.use[U_ATEXIT]; return 0; }
	SIMRT int simx_at_quick_exit(void (*)()) { ++K.hots; if (refuse()) return -1; ++K.use[U_ATEXIT]; return 0; }
	SIMRT unsigned short* simx_seed48(unsigned short s[3]) { fx(E_RAND); return seed48(s); }
	SIMRT void simx_lcong48(unsigned short s[7]) { fx(E_RAND); lcong48(s); }
	SIMRT char* simx_initstate(unsigned s, char* b, size_t n) { fx(E_RAND); return initstate(s, b, n); }
	SIMRT char* simx_setstate(char* b) { fx(E_RAND); return setstate(b); }
	SIMRT bool simx_sync_with_stdio(bool) { fx(E_STREAM); return true; }
	// results that live in one place for the whole process
	SIMRT char* simx_ecvt(double v, int n, int* p, int* s) { fx(E_STATIC); return ecvt(v, n, p, s); }
	SIMRT char* simx_fcvt(double v, int n, int* p, int* s) { fx(E_STATIC); return fcvt(v, n, p, s); }
	SIMRT char* simx_qecvt(long double v, int n, int* p, int* s) { fx(E_STATIC); return qecvt(v, n, p, s); }
	SIMRT char* simx_qfcvt(long double v, int n, int* p, int* s) { fx(E_STATIC); return qfcvt(v, n, p, s); }
	SIMRT tm* simx_gmtime(const time_t* t) { fx(E_STATIC); return gmtime(t); }
	SIMRT tm* simx_localtime(const time_t* t) { fx(E_STATIC); return localtime(t); }
	SIMRT char* simx_asctime(const tm* t) { fx(E_STATIC); return asctime(t); }
	SIMRT char* simx_ctime(const time_t* t) { fx(E_STATIC); return ctime(t); }
	SIMRT char* simx_l64a(long v) { fx(E_STATIC); return l64a(v); }
	SIMRT char* simx_tmpnam(char* b) { if (!b) fx(E_STATIC); return b; }
	SIMRT double simx_lgamma(double v) { fx(E_STATIC); return lgamma(v); }
	SIMRT float simx_lgammaf(float v) { fx(E_STATIC); return lgammaf(v); }
	SIMRT long double simx_lgammal(long double v) { fx(E_STATIC); return lgammal(v); }
	SIMRT int simx_getopt(int, char* const*, const char*) { fx(E_STATIC); return -1; }
	SIMRT int simx_hcreate(size_t) { fx(E_STATIC); return 0; }
	SIMRT void* simx_hsearch() { fx(E_STATIC); return nullptr; }
	SIMRT int simx_mallopt(int, int) { fx(E_STATIC); return 1; }
	// how the process was started
	char* simx_progname = program_invocation_name; char* simx_progname1 = program_invocation_short_name; char* simx_progname2 = program_invocation_name; char* simx_progname3 = program_invocation_short_name;
	SIMRT unsigned long simx_getauxval(unsigned long k) {
		++K.hots; static u64 rnd[2];
		if (!K.clockjumpy) { if (k == AT_RANDOM) { rnd[0] = rnd[1] = 0; return u64(rnd); } return k == AT_SYSINFO_EHDR ? 0 : getauxval(k); }
		u64 x = K.clockrng = mix64(K.clockrng + k);
		switch (k) {
		case AT_RANDOM: rnd[0] = x; rnd[1] = mix64(x); return u64(rnd);
		case AT_UID: case AT_EUID: case AT_GID: case AT_EGID: return x & 1 ? x >> 44 : 0;
		case AT_SECURE: return x & 1;
		case AT_EXECFN: return u64(word(x));
		case AT_SYSINFO_EHDR: return 0;
		default: return getauxval(k);
		}
	}
	// start-up and shutdown of the library's static objects, as operations
	__attribute__((weak)) extern void (*__start_sim_init[])(int, char**, char**); __attribute__((weak)) extern void (*__stop_sim_init[])(int, char**, char**);
	__attribute__((weak)) extern void (*__start_sim_fini[])(); __attribute__((weak)) extern void (*__stop_sim_fini[])();
	// (a number in d->bits: only so many of them, the others later)
	static u32 g_initpos, g_finipos, g_tsdround[MAXT];
	void sim_run_init(OpDesc* d) { for (u64 n = d && d->bits ? d->bits : ~u64(0); n && g_initpos < u32(__stop_sim_init - __start_sim_init); --n) __start_sim_init[g_initpos++](0, nullptr, nullptr); }
	void sim_run_fini(OpDesc* d) {
		u64 n = d->bits ? d->bits : ~u64(0);
		for (; n && K.natex; --n) { u32 i = --K.natex; K.atex[i].f(K.atex[i].a); }
		for (const u32 e = u32(__stop_sim_fini - __start_sim_fini); n && g_finipos < e; --n) __start_sim_fini[e - ++g_finipos]();
	}
	// thread-specific data
	static const u32 NTSD = 1024; static u32 tsd_end;   // (PTHREAD_KEYS_MAX)
	static void (*tsd_dtor[NTSD])(void*); static u8 tsd_used[NTSD]; static void* tsd_val[NPARK + 1][NTSD];
	static SIMRT void** tsd_mine() { u64 x; asm volatile("mov %%fs:16, %0" : "=r"(x)); x = (x - A_TSTACK) / TSTACK_SZ; return tsd_val[x < NPARK ? x : NPARK]; }
	SIMRT int simx_key_create(pthread_key_t* k, void (*f)(void*)) {
		++K.hots; if (refuse()) return EAGAIN;
		for (u32 i = 0; i < NTSD; ++i) if (!tsd_used[i]) { if (i >= tsd_end) tsd_end = i + 1; ++K.use[U_KEYS]; tsd_used[i] = 1; tsd_dtor[i] = f; for (u32 p = 0; p <= NPARK; ++p) tsd_val[p][i] = nullptr; *k = i; return 0; }
		++K.use[U_KEYS]; return EAGAIN;
	}
	SIMRT int simx_key_delete(pthread_key_t k) { if (k >= NTSD || !tsd_used[k]) return EINVAL; --K.use[U_KEYS]; tsd_used[k] = 0; return 0; }
	SIMRT int simx_setspecific(pthread_key_t k, const void* v) { ++K.hots; if (k >= NTSD || !tsd_used[k]) return EINVAL; tsd_mine()[k] = (void*)v; return 0; }
	SIMRT void* simx_getspecific(pthread_key_t k) { ++K.hots; return k < NTSD && tsd_used[k] ? tsd_mine()[k] : nullptr; }
	SIMRT int simx_tss_create(pthread_key_t* k, void (*f)(void*)) { return simx_key_create(k, f) ? 2 : 0; }
	SIMRT void simx_tss_delete(pthread_key_t k) { simx_key_delete(k); }
	SIMRT int simx_tss_set(pthread_key_t k, void* v) { return simx_setspecific(k, v) ? 2 : 0; }
	SIMRT void* simx_tss_get(pthread_key_t k) { return simx_getspecific(k); }
	void sim_run_texit(OpDesc* d) {
		u64 n = d->bits ? d->bits : ~u64(0);
		u32 t = u32(K.curt); for (; n && K.ntatex[t]; --n) { u32 i = --K.ntatex[t]; --K.use[U_TEXIT]; K.tatex[t][i].f(K.tatex[t][i].a); }
		void** m = tsd_mine();
		for (; n && g_tsdround[t] < 4; --n, ++g_tsdround[t]) for (u32 i = 0; i < tsd_end; ++i) if (m[i] && tsd_used[i]) { void* v = m[i]; m[i] = nullptr; if (tsd_dtor[i]) tsd_dtor[i](v); }
	}
	void sim_hook(OpDesc* d) {
		if (!K.running || (K.mode >= 2 && !K.leak)) return;
		if (K.mode < 2) sim_hook_trap(d);
		if (d->beh == B_THROW) {
			const u64 id = u64(reinterpret_cast<uintptr_t>(d));
			switch (exc_kind(d->bits, d->api)) { case 0: case 1: throw SimRt(id); case 2: case 3: throw SimBad(id); case 4: throw id; default: throw SimExc{ id }; }
		}
	}
}
int kern_ninit() { return int(__stop_sim_init - __start_sim_init); }
int kern_nfini() { return int(__stop_sim_fini - __start_sim_fini); }

// ---- instrumentation callbacks (engine 1) ----------------------------------------------------------------
static inline __attribute__((always_inline)) void step(u64 pc) {
	u64 h = (K.hash ^ pc) * 0x9E3779B97F4A7C15ull; K.hash = h ^ (h >> 29);
	K.cov[pc & 0x3fff] = 1;
	if (__builtin_expect(--K.cd <= 0, 0)) sim_cb_trap();
}
static inline __attribute__((always_inline)) bool is_hot(u64 a) {
	return a - K.w_lo < K.w_len || a - A_TSTACK < NPARK * TSTACK_SZ || a - A_HEAP < (A_DHEAP - A_HEAP);
}
static inline __attribute__((always_inline)) void hot() { ++K.hots; if (--K.hotcd == 0) sim_cb_trap(); }
#define PC u64(__builtin_return_address(0))
extern "C" {
	SIMRT void __sanitizer_cov_trace_pc() {
		step(PC);
		if (__builtin_expect(K.scouting, 0)) { u32 f = u32((PC * 0x9E3779B97F4A7C15ull) >> 48); if (!K.fc[f]) { if (K.nft == 4096) return; K.ft[K.nft++] = u16(f); } if (K.fc[f] != 255) ++K.fc[f]; }
	}
	// constants in comparisons (only noted by the scout)
	static SIMRT void konst(u64 c) {
		if (c < 8) return;
		for (u32 i = u32(mix64(c)) & 4095, z = 0; z < 8; ++z, i = (i + 1) & 4095) { if (BK->konst[i] == c) return; if (!BK->konst[i]) { BK->konst[i] = c; ++BK->nkonst; return; } }
	}
#define TC(n, T) SIMRT void __sanitizer_cov_trace_cmp##n(T, T) {} SIMRT void __sanitizer_cov_trace_const_cmp##n(T a, T) { if (__builtin_expect(K.scouting, 0)) konst(u64(a)); }
	TC(1, u8) TC(2, u16) TC(4, u32) TC(8, u64)
	SIMRT void __sanitizer_cov_trace_switch(u64, u64* c) { if (__builtin_expect(K.scouting, 0)) for (u64 i = 0; i < c[0] && i < 64; ++i) konst(c[2 + i]); }
	static SIMRT void st_slow(u64 a, u32 n) {
		if (is_hot(a)) { if (K.mode >= 2) { bool k = false; for (u32 i = 0; i < K.nha; ++i) k |= K.ha[i] == (a & ~7ull); if (!k && K.nha < 4) K.ha[K.nha++] = a & ~7ull; } hot(); return; }
		if (K.contain && (a - A_ARENA < ARENA_SZ || a - A_GUARD < (2 * MAXD + 1) * PG) && !(a >= K.c_lo && a + n <= K.c_hi)) {
			if (!K.cviol) { K.cviol = 1; K.cv_addr = a; K.cv_size = n; }
			sim_cb_trap();
		}
	}
#define LS(n) SIMRT void __sanitizer_cov_load##n(void* a) { step(PC); if (is_hot(u64(a))) hot(); } \
	SIMRT void __sanitizer_cov_store##n(void* a) { step(PC); st_slow(u64(a), n); }
	LS(1) LS(2) LS(4) LS(8) LS(16)
	// atomic read-modify-write operations (atomics.h)
	SIMRT void sim_rmw_before(const volatile void* a) { step(PC); if (is_hot(u64(a))) hot(); }
	SIMRT void sim_rmw_after(const volatile void* a) { step(PC); if (is_hot(u64(a))) st_slow(u64(a), 1); }
	// block operations of the library: every chunk is an access of its own, so they can be torn
	static SIMRT __attribute__((always_inline)) inline void chunk(u8* d, const u8* s, u32 n, u64 pc) {
		if (s) { step(pc); if (is_hot(u64(s))) hot(); }
		step(pc); st_slow(u64(d), n);
		for (u32 i = 0; i < n; ++i) { if (s) *(volatile u8*)(d + i) = *(const volatile u8*)(s + i); }
	}
	SIMRT void* simx_memcpy(void* d, const void* s, size_t n) { u64 pc = PC; size_t i = 0; for (; i + 8 <= n; i += 8) chunk((u8*)d + i, (const u8*)s + i, 8, pc); for (; i < n; ++i) chunk((u8*)d + i, (const u8*)s + i, 1, pc); return d; }
	SIMRT void* simx_memmove(void* d, const void* s, size_t n) {
		if (u64(d) - u64(s) >= n) { u64 pc = PC; size_t i = 0; for (; i + 8 <= n; i += 8) { u8 t[8]; for (int z = 0; z < 8; ++z) t[z] = ((const volatile u8*)s)[i + z]; chunk((u8*)d + i, t, 8, pc); } for (; i < n; ++i) chunk((u8*)d + i, (const u8*)s + i, 1, pc); return d; }
		u64 pc = PC; for (size_t i = n; i-- > 0;) chunk((u8*)d + i, (const u8*)s + i, 1, pc); return d;
	}
	SIMRT void* simx_memset(void* d, int v, size_t n) { u64 pc = PC; for (size_t i = 0; i < n; ++i) { chunk((u8*)d + i, nullptr, 1, pc); *(volatile u8*)((u8*)d + i) = u8(v); } return d; }
}

// ---- contexts ------------------------------------------------------------------------------------------------
static void save_ctx(Ctx& c, ucontext_t* uc) {
	memcpy(c.g, uc->uc_mcontext.gregs, sizeof c.g);
	u8* f = (u8*)uc->uc_mcontext.fpregs;
	u32 n = 512; if (*(u32*)(f + 464) == 0x46505853) n = *(u32*)(f + 464 + 4);
	if (n > FPMAX) n = FPMAX;
	c.fpsize = n; memcpy(c.fp, f, n);
}
static void load_ctx(const Ctx& c, ucontext_t* uc) {
	memcpy(uc->uc_mcontext.gregs, c.g, sizeof c.g);
	memcpy(uc->uc_mcontext.fpregs, c.fp, c.fpsize);
	sigemptyset(&uc->uc_sigmask);
}
static u32& fmx(Ctx& c) { return *(u32*)(c.fp + 24); }
static u16& fcw(Ctx& c) { return *(u16*)(c.fp + 0); }
static u16& fsw(Ctx& c) { return *(u16*)(c.fp + 2); }
static u8& ftw(Ctx& c) { return *(u8*)(c.fp + 4); }
static void xbits(Ctx& c) { if (c.fpsize > 512 + 8) *(u64*)(c.fp + 512) |= 3; }

[[noreturn]] static void kexit(u32 status) {
	RunOut& o = SH->out;
	o.status = status; o.hash = K.hash; o.hot = K.hots; o.allocs = K.allocs; o.allocfails = K.allocfails;
	o.syscalls = K.syscalls; o.tscs = K.tscs; o.clockns = K.clock; o.lastsys = K.lastsys;
	for (u32 i = 0; i < sizeof K.cov; ++i) if (K.cov[i]) SH->cov[i] = 1;
	ksys(SYS_exit_group, 0);
	__builtin_trap();
}
static void set_locale(u32 l);
static void world_check();
static void own_extent(int d, u64* lo, u64* hi) {
	const PlanOp& p = SH->in.op[d];
	*lo = u64(SH->d[d].buf); *hi = *lo + p.len + p.nul;
}

// exceptions of the caller's that are under way on a thread when it calls
struct EhState { void* caught; u32 uncaught; };
static void* g_handled;   // an exception object to be handled meanwhile
static void eh_state(u64 fs, u32 exc) { EhState* e = (EhState*)((u8*)abi::__cxa_get_globals() - getfs() + fs); e->uncaught = exc == 1; e->caught = exc == 2 ? g_handled : nullptr; }
static void eh_init() {
	static std::exception_ptr keep;
	try { throw SimRt(0); } catch (...) { keep = std::current_exception(); g_handled = ((EhState*)abi::__cxa_get_globals())->caught; }
}
static char g_dest[MAXD][64]; static thread_local char g_tdest[MAXD][64];
static char* destination(int t, int d) {   // (see enum Place; on the own stack: start_call)
	switch (SH->in.op[d].place) {
	case P_OTHER: return (char*)(A_STACK + SH->in.ssel[(t + 1) % MAXT] * STACK_SZ + (SH->in.stack_bytes > 16384 ? PG : 4 * 8192) + 64 * d);   // (a part that is not in use)
	case P_STATIC: return g_dest[d] + (d & 15);
	case P_TLS: return &g_tdest[d][d & 7] - getfs() + K.th[t].fs;
	case P_HEAP: return (char*)(A_HEAP + (u64(768) << 20) + 64 * d + (d & 15));
	}
	return nullptr;
}
static void start_call(int t, int d, const Ctx* on) {
	Thread& th = K.th[t]; PlanOp& p = SH->in.op[d]; OpDesc& o = SH->d[d]; OpRes& r = SH->out.r[d];
	int l = th.nlvl++;
	th.desc[l] = u8(d); th.unw[l] = 0; th.drop[l] = 0;
	if (u32(l + 1) > SH->out.nested_max) SH->out.nested_max = l + 1;
	Ctx& c = th.cur;
	u64 rsp;
	if (on) { if (&th.saved[l - 1] != on) th.saved[l - 1] = *on; rsp = (on->g[REG_RSP] - 128 - 512) & ~u64(15); }
	else { u64 lo = A_STACK + SH->in.ssel[t] * STACK_SZ; rsp = lo + PG + SH->in.stack_bytes - SH->in.stack_shift; }
	memcpy(c.g, K.base.g, sizeof c.g); c.fpsize = K.base.fpsize; memcpy(c.fp, K.base.fp, K.base.fpsize);
	if (K.mode == 0 && p.place) { if (p.place == P_STACK) { rsp -= 96; o.buf = (char*)rsp + 16 + (d & 15); } else o.buf = destination(t, d); }
	rsp = (rsp & ~u64(15)) - 8; *(u64*)rsp = u64(&sim_op_done);
	c.g[REG_RSP] = rsp;
	o.api = p.api; o.dbl = p.dbl; o.mode = p.mode; o.crs = p.crs; o.beh = p.beh; o.bits = p.bits;
	o.sig = 0; o.exp = 0; o.neg = 0; o.end = nullptr; o.cls = 0; o.threw = 0; o.hcalls = 0; o.hbits = 0; o.calling = 0; o.nested = l > 0; o.lives = 0;
	opfn_t fn = p.api == A_INIT ? sim_run_init : p.api == A_FINI ? sim_run_fini : p.api == A_TEXIT ? sim_run_texit : sut_lookup(&o);
	c.g[REG_RIP] = u64(fn); c.g[REG_RDI] = u64(&o);
	for (int i : { REG_RBX, REG_RBP, REG_R12, REG_R13, REG_R14, REG_R15, REG_RAX, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9, REG_R10, REG_R11 }) c.g[i] = K.mode == 0 ? i64(mix64(SH->in.fill_seed + u64(i) * 64 + u64(d))) : 0;   // leftovers of other code
	c.g[REG_EFL] = 0x202;
	xbits(c);
	bool q = K.quiet;
	fmx(c) = q ? 0x1f80 : p.mxcsr; fcw(c) = q ? 0x37f : p.fcw; fsw(c) = 0; ftw(c) = 0;
	if (!q && p.x87dirty) {
		fsw(c) = u16(((8 - p.x87dirty) & 7) << 11); ftw(c) = 0;
		for (int i = 0; i < p.x87dirty; ++i) {
			ftw(c) |= u8(1 << (7 - i));
			u64 m = 0x8000000000000000ull | (mix64(p.bits + i) >> 1); memcpy(c.fp + 32 + 16 * i, &m, 8); c.fp[32 + 16 * i + 8] = 0xff; c.fp[32 + 16 * i + 9] = 0x3f;
		}
	}
	th.ownmx[l] = fmx(c); th.ownfcw[l] = fcw(c); th.ownfsw[l] = fsw(c); th.ownftw[l] = ftw(c);
	if (!on) { *th.err = q ? 0 : p.err0; eh_state(th.fs, K.mode == 0 ? p.exc : 0); }
	if (r.nfin && SH->in.unmap_done && p.layout != L_PACKED) ksys(SYS_mprotect, A_GUARD + (2 * d + 1) * PG, PG, PROT_READ | PROT_WRITE);
	r.started = 1; K.dstate[d] = 1; r.steps = 0; ++r.nexec;
	SH->out.switches++;
}
static void op_finish(int t) {
	Thread& th = K.th[t]; int l = th.nlvl - 1, d = th.desc[l];
	PlanOp& p = SH->in.op[d]; OpDesc& o = SH->d[d]; OpRes& r = SH->out.r[d]; Ctx& c = th.cur;
	OpRes old = r; r.done = 1; K.dstate[d] = 2;
	r.sig = o.sig; r.exp = o.exp; r.neg = o.neg; r.cls = o.cls; r.threw = o.threw; r.hcalls = o.hcalls; r.hbits = o.hbits;
	bool text = is_text(p.api) && !o.threw;
	r.endoff = text ? o.end - o.buf : -1;
	memset(r.text, 0, sizeof r.text);
	if (text) {
		i64 n = r.endoff + (p.api == A_CHARS ? 1 : 0);
		i64 cap = K.mode == 1 ? 48 : p.len + p.nul;
		if (n > cap) n = cap;
		if (n > 48) n = 48;
		if (n > 0) memcpy(r.text, o.buf, n);
		if (K.mode == 1 && p.api == A_CHARS && r.endoff >= 0 && r.endoff < 48) r.text[r.endoff] = u8(o.buf[r.endoff]);
	}
	if (r.nfin++ && !(old.sig == r.sig && old.exp == r.exp && old.neg == r.neg && old.cls == r.cls && old.threw == r.threw && old.hcalls == r.hcalls && old.hbits == r.hbits && old.endoff == r.endoff && (r.tampered || !memcmp(old.text, r.text, sizeof r.text)))) { r.repdiff = r.nexec; r.nexec = p.reps + 1; }
	r.mxcsr = fmx(c); r.fcw = fcw(c); r.fsw = fsw(c); r.ftw = ftw(c); r.err = *th.err;
	r.envbad = 0;
	if (fmx(c) != th.ownmx[l]) r.envbad |= 1;
	if (fcw(c) != th.ownfcw[l]) r.envbad |= 2;
	if (fsw(c) != th.ownfsw[l] || ftw(c) != th.ownftw[l]) r.envbad |= 4;
	if (c.g[REG_EFL] & 0x400) r.envbad |= 8;
	r.errbad = !th.nlvl ? 0 : (l == 0 && *th.err != (K.quiet ? 0 : p.err0));
	if (p.api < A_INIT && SH->in.check_env && !K.quiet) {   // locale is process-wide and only the simulator changes it
		const char* want = K.cloc && kern_have_locale ? "de_DE.UTF-8" : "C";
		const char* cur = setlocale(LC_NUMERIC, nullptr);
		r.locbad = strcmp(cur, want) != 0;
	}
	r.lives = o.lives;
	if (K.looking) {
		if (K.effect) { effect(K.effect); K.effect = 0; }
		world_check();
		if (K.sigmask[t] && !l) { effect(E_SIGMASK); K.sigmask[t] = 0; }
	}
	--th.nlvl;
	if (l > 0) th.cur = th.saved[l - 1]; else { th.inop = 0; eh_state(th.fs, 0); }
	if (SH->in.unmap_done && K.mode == 0 && p.layout != L_PACKED && !p.reps) ksys(SYS_mprotect, A_GUARD + (2 * d + 1) * PG, PG, PROT_NONE);
}
static void abandon_all(int t) {
	Thread& th = K.th[t];
	while (th.nlvl) { int d = th.desc[--th.nlvl]; SH->out.r[d].abandoned = 1; K.dstate[d] = 2; }
	th.inop = 0;
}

// ---- side effects ---------------------------------------------------------------------------------------------------
static int cur_desc() { return K.curt >= 0 && K.th[K.curt].nlvl ? K.th[K.curt].desc[K.th[K.curt].nlvl - 1] : -1; }
extern "C" SIMRT void effect(u32 e) {
	if (!K.looking || !K.in_sut) return;
	if (K.mode >= 2) { if (!K.effect) K.effect = e; return; }
	int d = cur_desc(); if (d < 0 || SH->in.op[d].api >= A_INIT) return;
	if (!SH->out.r[d].effect) SH->out.r[d].effect = e;
}
static struct { char* out; char** env; long flags, prec, width; int fill; std::terminate_handler th; std::new_handler nh; } g_world[2];
static void pending() {   // output that the application has not flushed yet
	static char room[4096]; setvbuf(stdout, room, _IOFBF, sizeof room); fputs("(pending)", stdout);
}
static void world(int i) {   // what of the application's state can be read off directly
	auto& w = g_world[i]; memset(&w, 0, sizeof w);
	w.out = stdout->_IO_write_ptr; w.env = environ;
	for (std::ostream* s : { &std::cout, &std::cerr, &std::clog }) { w.flags = w.flags * 31 + long(s->flags()); w.prec = w.prec * 31 + s->precision(); w.width = w.width * 31 + s->width(); w.fill = w.fill * 31 + s->fill() + int(s->rdstate()) + int(s->exceptions()); }
	w.th = std::get_terminate(); w.nh = std::get_new_handler();
}
static void world_check() {
	world(1); auto& a = g_world[0]; auto& b = g_world[1];
	if (a.out != b.out) effect(E_STDOUT);
	else if (a.flags != b.flags || a.prec != b.prec || a.width != b.width || a.fill != b.fill) effect(E_STREAM);
	else if (a.env != b.env) effect(E_ENVIRON);
	else if (a.th != b.th || a.nh != b.nh) effect(E_HANDLER);
	else if (uselocale((locale_t)0) != LC_GLOBAL_LOCALE) effect(E_THREADLOC);
}

// ---- owner map --------------------------------------------------------------------------------------------------
static void containment(int t, int d) {   // d: call whose bytes the last slice may have written (-1 none)
	u64 lo = 1, hi = 0; if (d >= 0) own_extent(d, &lo, &hi);
	RunIn& in = SH->in; RunOut& o = SH->out;
	u8* a = (u8*)A_ARENA;
	if (memcmp(a, K.shadow, in.arena_used)) for (u32 i = 0; i < in.arena_used; ++i) if (a[i] != K.shadow[i]) {
		u64 ad = A_ARENA + i;
		if (!(ad >= lo && ad < hi) && in.contain) { o.viol_d = d; o.viol_off = i; o.viol_t = t; o.viol_old = K.shadow[i]; o.viol_new = a[i]; kexit(S_CONTAIN); }
		K.shadow[i] = a[i];
	}
	for (u32 g = 0; g < in.ndesc; ++g) if (in.op[g].layout != L_PACKED && (K.dstate[g] == 1 || int(g) == d)) {
		u8* pg = (u8*)(A_GUARD + (2 * g + 1) * PG);
		if (memcmp(pg, K.gshadow[g], PG)) for (u32 i = 0; i < PG; ++i) if (pg[i] != K.gshadow[g][i]) {
			u64 ad = u64(pg) + i;
			if (!(ad >= lo && ad < hi) && in.contain) { o.viol_d = d; o.viol_off = 0x100000 + g * PG + i; o.viol_t = t; o.viol_old = K.gshadow[g][i]; o.viol_new = pg[i]; kexit(S_CONTAIN); }
			K.gshadow[g][i] = pg[i];
		}
	}
}
static void poke(u64 ad, u8 v) {   // a write by the simulator, on behalf of the owner of the byte
	*(u8*)ad = v;
	if (ad - A_ARENA < ARENA_SZ) K.shadow[ad - A_ARENA] = v;
	else { u64 g = (ad - A_GUARD) / PG / 2; if (g < MAXD) K.gshadow[g][(ad - A_GUARD) % PG] = v; }
}

// ---- store buffers (x86-TSO) ---------------------------------------------------------------------------------------
// insn engine: plain stores of the library to its static data are recognised before they execute. A caller that runs
// sees its own stores; while another one runs, those still in its buffer are taken back. The buffer empties in order: at
// instructions that drain it, at interrupts, and by and by. Stores in any other form (found by comparison) drain it too.
extern "C" { __attribute__((weak)) extern char __start_sut_data[], __stop_sut_data[], __start_sut_bss[], __stop_sut_bss[]; }
static bool sb_region(u64 a, u32 n) { return (a - K.sb_lo[0] < K.sb_len[0] && a + n <= K.sb_lo[0] + K.sb_len[0]) || (a - K.sb_lo[1] < K.sb_len[1] && a + n <= K.sb_lo[1] + K.sb_len[1]); }
static u8* sb_sh(u64 a) { return a - K.sb_lo[0] < K.sb_len[0] ? K.sbshadow + (a - K.sb_lo[0]) : K.sbshadow + K.sb_len[0] + (a - K.sb_lo[1]); }
static void sb_shadow() { u8* s = K.sbshadow; for (int z = 0; z < 2; ++z) { memcpy(s, (void*)K.sb_lo[z], K.sb_len[z]); s += K.sb_len[z]; } }
static void sb_drop(int t, u32 c) { if (c) { memmove(K.sb[t], K.sb[t] + c, (K.sbn[t] - c) * sizeof(SbEnt)); K.sbn[t] -= c; } }
static void sb_decode(const i64* g) {   // what the instruction about to execute does to the store buffer
	static const int reg[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
	const u8* p = (const u8*)g[REG_RIP]; u8 rex = 0, rep = 0; bool o16 = false, seg = false;
	K.sbpend = 0; K.sbfence = 0;
	for (;; ++p) {
		u8 c = *p;
		if (c == 0xf0) { K.sbfence = 1; return; }
		if (c == 0x66) o16 = true; else if (c == 0xf2 || c == 0xf3) rep = c; else if (c == 0x64 || c == 0x65) seg = true; else if (c == 0x2e || c == 0x36 || c == 0x3e || c == 0x26) {} else break;
	}
	if ((*p & 0xf0) == 0x40) rex = *p++;
	u8 op = *p++; u32 size = 0, imm = 0;
	switch (op) {
	case 0x86: case 0x87: K.sbfence = (*p & 0xc0) != 0xc0; return;
	case 0x88: size = 1; break;
	case 0x89: size = rex & 8 ? 8 : o16 ? 2 : 4; break;
	case 0xc6: if (*p & 0x38) return; size = imm = 1; break;
	case 0xc7: if (*p & 0x38) return; size = rex & 8 ? 8 : o16 ? 2 : 4; imm = o16 && !(rex & 8) ? 2 : 4; break;
	case 0x0f:
		op = *p++;
		if (op == 0x05 || op == 0xa2 || (op == 0xae && (*p & 0xf8) == 0xf0)) { K.sbfence = 1; return; }
		if (op == 0x11) size = rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : 16;
		else if (op == 0x29) size = 16;
		else if (op == 0x7f && (o16 || rep == 0xf3)) size = 16;
		else if (op == 0xd6 && o16) size = 8;
		else if (op == 0x7e && o16) size = rex & 8 ? 8 : 4;
		else return;
		break;
	default: return;
	}
	u8 m = *p++; u32 mod = m >> 6, rm = m & 7; if (mod == 3 || seg) return;
	u64 ea = 0; bool rip = false;
	if (rm == 4) {
		u8 b = *p++; u32 ix = ((b >> 3) & 7) | (rex & 2 ? 8 : 0), bs = b & 7;
		if (ix != 4) ea += u64(g[reg[ix]]) << (b >> 6);
		if (bs == 5 && mod == 0) { ea += i64(*(const i32*)p); p += 4; } else ea += g[reg[bs | (rex & 1 ? 8 : 0)]];
	}
	else if (rm == 5 && mod == 0) { rip = true; ea = i64(*(const i32*)p); p += 4; }
	else ea = g[reg[rm | (rex & 1 ? 8 : 0)]];
	if (mod == 1) ea += i64(*(const signed char*)p++); else if (mod == 2) { ea += i64(*(const i32*)p); p += 4; }
	if (rip) ea += u64(p) + imm;
	if (sb_region(ea, size)) { K.sbpend = size; K.sbpa = ea; }
}
static void sb_step(int t, const i64* g) {   // one instruction was executed
	if (K.sbfence) K.sbn[t] = 0;
	if (K.sbpend) {
		if (K.sbn[t] == SBMAX) sb_drop(t, 1);
		SbEnt& b = K.sb[t][K.sbn[t]++]; b.a = K.sbpa; b.n = K.sbpend; u8* s = sb_sh(b.a); memcpy(b.was, s, b.n); memcpy(b.is, (void*)b.a, b.n); memcpy(s, b.is, b.n);
	}
	u8* s = K.sbshadow;
	for (int z = 0; z < 2; s += K.sb_len[z], ++z) if (memcmp(s, (void*)K.sb_lo[z], K.sb_len[z])) { K.sbn[t] = 0; memcpy(s, (void*)K.sb_lo[z], K.sb_len[z]); }
	sb_decode(g);
}
static void sb_flush(int t) { for (u32 i = 0; i < K.sbn[t]; ++i) { SbEnt& b = K.sb[t][i]; memcpy((void*)b.a, b.is, b.n); } K.sbn[t] = 0; }   // while t does not run
static void sb_out(int t, bool unseen) {   // t stops running; unseen: it executed instructions that were not looked at
	if (unseen) K.sbn[t] = 0;
	if (K.allocs != K.sb_heap || K.phase) {   // (the heap is not tracked: from the first allocation on, nothing is delayed)
		K.sbn[t] = 0; for (u32 u = 0; u < SH->in.nthreads; ++u) if (int(u) != t) sb_flush(int(u));
		if (K.allocs != K.sb_heap) K.tso = 0;
		return;
	}
	u32 com[MAXT] = {};
	for (u32 u = 0; u < SH->in.nthreads; ++u) if (K.sbn[u]) {
		u32 c = K.sbrng.below(3) ? u32(K.sbrng.below(K.sbn[u] + 1)) : K.sbrng.below(2) ? K.sbn[u] : 0;
		if (int(u) == t) { sb_drop(t, c); continue; }
		com[u] = c;
	}
	if (K.sbn[t]) ++SH->out.sbdelays;
	for (u32 i = K.sbn[t]; i-- > 0;) { SbEnt& b = K.sb[t][i]; memcpy((void*)b.a, b.was, b.n); }
	for (u32 u = 0; u < SH->in.nthreads; ++u) for (; com[u]; --com[u]) { SbEnt& b = K.sb[u][0]; memcpy((void*)b.a, b.is, b.n); sb_drop(int(u), 1); }
}
static void sb_in(int t) {
	for (u32 i = 0; i < K.sbn[t]; ++i) { SbEnt& b = K.sb[t][i]; memcpy(b.was, (void*)b.a, b.n); memcpy((void*)b.a, b.is, b.n); }
	sb_shadow();
}

// ---- the scheduler ---------------------------------------------------------------------------------------------
static bool has_work(int t) {
	Thread& th = K.th[t];
	return !th.vanished && (th.inop || th.qpos < SH->in.qn[t]);
}
static bool waits(int t) { u32 p = SH->in.succ[t]; return p && !K.born[t] && has_work(int(p - 1)); }   // the thread is not there yet
static bool runnable(int t) { return has_work(t) && !K.th[t].stalled && !waits(t); }
static void cut_item() {   // record how far the slice actually went
	if (!SH->in.online || K.phase || K.curitem >= MAXI) return;
	Item& it = SH->items[K.curitem]; u64 used = K.slice_n - u64(K.cd > 0 ? K.cd : 0);
	if (it.kind == K_RUNOP && it.a) {   // a series of calls: only worth a note when it was cut inside one of them
		if (K.hotcut) { it.a = u16(it.a - K.burst); K.burst = 0; if (it.a) it.pad = u32(used); else it.n = used; }
	}
	else it.n = used;
}

static void resume(ucontext_t* uc, int t, u64 n, bool runop) {
	Thread& th = K.th[t];
	if (!th.inop && SH->in.succ[t] && !K.born[t]) {   // a new thread: the same place and number, fresh thread-local storage
		u32 p = SH->in.succ[t] - 1u; K.born[t] = 1; th.fs = K.th[p].fs; th.err = K.th[p].err; K.tid[t] = K.tid[p];
		memcpy((void*)(th.fs - K.tls_n), (void*)(A_SNAP + p * (u64(1) << 20)), K.tls_n);
		for (u32 i = 0; i < tsd_end; ++i) tsd_val[(th.fs - A_TSTACK) / TSTACK_SZ % NPARK][i] = nullptr;
	}
	if (!th.inop) { int d = SH->in.q[t][th.qpos]; th.inop = 1; K.areq[t] = 0; start_call(t, d, nullptr); if (SH->out.r[d].nexec > SH->in.op[d].reps) ++th.qpos; }
	int l = th.nlvl - 1, d = th.desc[l];
	OpRes& r = SH->out.r[d];
	u64 left = SH->in.budget > r.steps ? SH->in.budget - r.steps : 1;
	if (n > left) n = left;
	if (n == 0) n = 1;
	K.curt = t; K.slice_n = n; K.slice_runop = runop;
	if (th.unw[l]) { K.cd = INF; K.hotcd = INF; K.slice_n = INF; } else {
		K.cd = i64(n);
		if (!K.phase && SH->in.online && SH->in.p_hot && K.rng.chance(SH->in.p_hot)) K.hotcd = i64(1 + K.rng.below(4)); else K.hotcd = INF;
	}
	if (K.contain) { own_extent(d, &K.c_lo, &K.c_hi); }
	if (K.tso) { sb_in(t); sb_decode((const i64*)th.cur.g); K.sbstep = 0; }
	load_ctx(th.cur, uc); setfs(th.fs);
	if (K.tf && !th.unw[l]) uc->uc_mcontext.gregs[REG_EFL] |= 0x100; else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static bool in_app_code(u64 rip);
static bool quiesced() {   // nobody is inside library code that the kernel would re-enter
	for (u32 t = 0; t < SH->in.nthreads; ++t) if (K.th[t].inop && !K.th[t].vanished) {
		if (!in_app_code(K.th[t].cur.g[REG_RIP])) return false;
		for (int l = 0; l + 1 < K.th[t].nlvl; ++l) if (!in_app_code(K.th[t].saved[l].g[REG_RIP])) return false;
	}
	return true;
}
static void apply(Item& it) {
	int t = it.t; if (u32(t) >= SH->in.nthreads) t = 0;
	Thread& th = K.th[t]; RunOut& o = SH->out; bool ok = false, busy = th.inop && !th.vanished;
	bool unw = false; for (int l = 0; l < th.nlvl; ++l) if (th.unw[l]) unw = true;
	if (K.tso) { if (it.kind == K_FORK) for (u32 u = 0; u < SH->in.nthreads; ++u) sb_flush(int(u)); else sb_flush(t); }   // interrupts and context switches
	switch (it.kind) {
	case K_NEST: {
		int d = it.a;
		if (busy && !th.stalled && !unw && th.nlvl < MAXLVL && u32(d) < SH->in.ndesc && !K.dstate[d] && !o.r[d].started) { start_call(t, d, &th.cur); ok = true; }
		break; }
	case K_KILL: if (busy && !unw) { abandon_all(t); ok = true; } break;
	case K_VANISH: if (busy && !unw) { abandon_all(t); th.vanished = 1; ok = true; } break;
	case K_FORK: if (busy && !unw) {
		for (u32 u = 0; u < SH->in.nthreads; ++u) if (int(u) != t && !K.th[u].vanished) { abandon_all(u); K.th[u].vanished = 1; }
		for (u32 u = 0; u < SH->in.nthreads; ++u) K.th[u].stalled = 0;
		K.pid += 37; K.tid[t] = K.pid; if (K.hlock != u32(t) + 1) K.hlock = 0;
		ok = true; } break;
	case K_STALL: if (busy && !th.stalled) { th.stalled = 1; ok = true; } break;
	case K_UNSTALL: for (u32 u = 0; u < SH->in.nthreads; ++u) if (K.th[u].stalled) { K.th[u].stalled = 0; ok = true; } break;
	case K_ENV: if (busy && th.nlvl) { int l = th.nlvl - 1; xbits(th.cur);
		fmx(th.cur) = u32(it.n) & 0xffff; fcw(th.cur) = it.a; th.ownmx[l] = fmx(th.cur); th.ownfcw[l] = it.a; ok = true; } break;
	case K_TAMPER: if (busy) { int d = th.desc[th.nlvl - 1]; u64 lo, hi; own_extent(d, &lo, &hi);
		if (hi > lo) { poke(lo + it.a % (hi - lo), u8(it.n)); o.r[d].tampered = 1; ok = true; } } break;
	case K_NEIGH: {
		u64 ad = A_ARENA + it.a; bool own = it.a >= SH->in.arena_used;
		for (u32 d = 0; d < SH->in.ndesc && !own; ++d) if (SH->in.op[d].layout == L_PACKED) { u64 lo, hi; own_extent(d, &lo, &hi); if (ad >= lo && ad < hi) own = true; }
		if (!own) { poke(ad, u8(it.n)); ok = true; } break; }
	case K_LOC: if (quiesced()) { set_locale(it.a & 1); ok = true; } break;
	case K_CLOCK: K.clkoff[0] += it.n; ok = true; break;
	case K_AFAIL: K.afail = u8(it.a); ok = true; break;
	case K_MIGRATE: {
		auto movable = [](Thread& x) { if (SH->in.succ[0] | SH->in.succ[1] | SH->in.succ[2] | SH->in.succ[3]) return false; return !x.inop || (x.nlvl == 1 && !x.unw[0] && !SH->in.op[x.desc[0]].exc && u64(x.cur.g[REG_RIP]) == u64(&sim_hook_trap_ip) + 1); };
		if (it.a < SH->in.nthreads && it.a != t && movable(th) && movable(K.th[it.a])) { Thread& u = K.th[it.a]; u64 f = th.fs; th.fs = u.fs; u.fs = f; int* e = th.err; th.err = u.err; u.err = e; ok = true; }
		break; }
	default: break;
	}
	if (ok) { ++o.fired[it.kind]; if (busy) ++o.fault_in_flight; } else ++o.skipped;
}
static Item decide() {   // one scheduling or fault decision from the seed
	RunIn& in = SH->in; Rng& r = K.rng; Item it{}; 
	u32 boost = K.hotcut ? 8 : 1;
	u32 cand[MAXT], nc = 0, busy[MAXT], nb = 0;
	for (u32 t = 0; t < in.nthreads; ++t) { if (runnable(t)) cand[nc++] = t; if (K.th[t].inop && !K.th[t].vanished) busy[nb++] = t; }
	if (nb) for (int k = K_NEST; k < NKIND; ++k) if (in.p[k] && k != K_UNSTALL) {
		u64 p = u64(in.p[k]) * boost; if (p > 900) p = 900;
		if (r.below(1000) >= p) continue;
		it.kind = u8(k); it.t = u8(K.hotcut && K.curt >= 0 && K.th[K.curt].inop ? K.curt : busy[r.below(nb)]);
		switch (k) {
		case K_NEST: { bool f = false; for (u32 i = 0; i < in.nnest; ++i) if (!SH->out.r[in.nestq[i]].started) { it.a = in.nestq[i]; f = true; break; } if (!f) continue; break; }
		case K_STALL: { u32 ns = 0; for (u32 t = 0; t < in.nthreads; ++t) ns += runnable(t); if (ns < 2) continue; break; }
		case K_FORK: { u32 nv = 0; for (u32 t = 0; t < in.nthreads; ++t) nv += has_work(t); if (nv < 2 || r.below(3)) continue; break; }
		case K_VANISH: { u32 nv = 0; for (u32 t = 0; t < in.nthreads; ++t) nv += has_work(t); if (nv < 2) continue; break; }
		case K_ENV: it.n = (0x1f80 | (r.below(4) << 13) | (r.chance(500) ? 0x8000 : 0) | (r.chance(500) ? 0x40 : 0) | r.below(64)); it.a = u16(0x7f | (r.below(4) << 8) | (r.below(4) << 10)); if (in.check_env && r.chance(500)) { it.n &= ~u64(r.below(64) << 7); it.n &= ~u64(63); it.a &= u16(~r.below(64)); } break;
		case K_TAMPER: it.a = u16(r.below(64)); it.n = r.chance(500) ? u8(kAlpha[r.below(32)]) : r.below(256); break;
		case K_NEIGH: it.a = u16(r.below(in.arena_used ? in.arena_used : 1)); it.n = r.below(256); break;
		case K_LOC: it.a = u16(r.below(2)); break;
		case K_CLOCK: it.n = r.chance(500) ? r.below(1u << 30) : u64(0) - r.below(1u << 30); break;
		case K_AFAIL: { static const u8 pat[] = { 0, 0, 0, 1, 1, 1, 2, 4, 8, 254, 252, 253 }; it.a = r.chance(100) ? u16(2 + r.below(254)) : pat[r.below(12)]; break; }
		case K_MIGRATE: it.a = u16(r.below(in.nthreads)); break;
		}
		return it;
	}
	u32 t = cand[r.below(nc)];
	it.t = u8(t);
	u32 left = 200; { Thread& th = K.th[t]; int d = th.inop ? th.desc[th.nlvl - 1] : in.q[t][th.qpos]; left = in.op[d].refsteps; if (left < 4) left = 4; }
	if (in.p_runop && r.chance(in.p_runop)) { it.kind = K_RUNOP; it.n = 4 * left + 2000; { int d = K.th[t].inop ? K.th[t].desc[K.th[t].nlvl - 1] : in.q[t][K.th[t].qpos]; u32 rp = in.op[d].reps; if (rp && r.chance(700)) it.a = u16(1 + r.below(r.chance(500) ? rp : 12)); } return it; }
	it.kind = K_RUN;
	switch (in.style) {
	default: case 0: { u64 n = 1; while (n < 4000 && !r.chance(1000 / (in.meanlen ? in.meanlen : 1) + 1)) ++n; it.n = n; break; }
	case 1: it.n = 1 + r.below(left + left / 4); break;
	case 2: it.n = 1 + r.below(4); break;
	case 3: it.n = r.chance(500) ? 1 + r.below(left) : 1 + r.below(12); break;
	}
	return it;
}
static void set_locale(u32 l);
static void world_check();
static void fresh_thread(int t) {
	Thread& th = K.th[t];
	memcpy((void*)(th.fs - K.tls_n), (void*)(A_SNAP + t * (u64(1) << 20)), K.tls_n);
	for (u32 i = 0; i < tsd_end; ++i) tsd_val[(th.fs - A_TSTACK) / TSTACK_SZ % NPARK][i] = nullptr;
	g_tsdround[t] = 0;
}
static void finish_ok() {   // every call was made
	RunIn& in = SH->in; RunOut& o = SH->out;
	if (K.mode != 0 || in.passes < 2) kexit(S_OK);
	K.use[U_COST] = K.use[U_TOTAL] = 0; for (u32 d = 0; d < in.ndesc; ++d) if (o.r[d].done && in.op[d].api < A_INIT) { i64 s = i64(o.r[d].steps); K.use[U_TOTAL] += s; if (s > K.use[U_COST]) K.use[U_COST] = s; }
	memcpy(o.use[K.pass], K.use, sizeof K.use); o.npass = ++K.pass;
	if (K.pass >= in.passes || K.pass >= MAXPASS) kexit(S_OK);
	for (u32 d = 0; d < in.ndesc; ++d) { if (o.r[d].lives && o.r[d].done) kexit(S_OK); K.dstate[d] = 0; memset(&o.r[d], 0, sizeof o.r[d]); }
	for (u32 t = 0; t < in.nthreads; ++t) { Thread& th = K.th[t]; th.qpos = 0; th.inop = th.nlvl = th.vanished = th.stalled = 0; if (in.newthreads) fresh_thread(int(t)); }
	if (in.online) { in.online = 0; in.nitems_in = o.nitems; }
	K.phase = 0; K.ipos = 0; K.rr = 0; K.afail = u8(in.afail0); K.hotcut = 0; set_locale(0);
}

static void ref_next(ucontext_t* uc);

static void schedule(ucontext_t* uc) {
	RunIn& in = SH->in; RunOut& o = SH->out;
	if (K.mode == 1) { ref_next(uc); return; }
	for (;;) {
		bool any = false, anyrun = false;
		for (u32 t = 0; t < in.nthreads; ++t) { any |= has_work(t); anyrun |= runnable(t); }
		if (!any) { finish_ok(); continue; }
		if (!anyrun) {    // everybody left is stalled: faults stop here
			for (u32 t = 0; t < in.nthreads; ++t) K.th[t].stalled = 0;
			++o.fired[K_UNSTALL]; continue;
		}
		Item it{};
		if (!K.phase) {
			if (in.online) {
				if (K.ipos >= in.maxitems) { K.phase = 1; continue; }
				it = decide(); SH->items[K.ipos] = it; K.curitem = K.ipos++; o.nitems = K.ipos;
			} else {
				if (K.ipos >= in.nitems_in) { K.phase = 1; continue; }
				it = SH->items[K.ipos++];
			}
			K.hotcut = 0;
			if (it.kind == K_RUN || it.kind == K_RUNOP) {
				if (it.t >= in.nthreads || !runnable(it.t) || !it.n) { ++o.skipped; continue; }   // (n = 0: the slice was cut before its first step)
				++o.fired[it.kind]; ++o.slices;
				K.burst = it.kind == K_RUNOP ? it.a : 0; K.bpad = it.pad;
				resume(uc, it.t, it.n, it.kind == K_RUNOP); return;
			}
			apply(it);
			continue;
		}
		// drain: no more faults, round robin
		for (u32 i = 0; i < in.nthreads; ++i) { K.rr = (K.rr + 1) % in.nthreads; if (runnable(K.rr)) break; }
		++o.slices; K.burst = 0;
		resume(uc, int(K.rr), sut_engine == 1 ? 300 : 400, false); return;
	}
}
// a slice is over: account for it and check the invariants
static void slice_end(ucontext_t* uc) {
	int t = K.curt; Thread& th = K.th[t];
	save_ctx(th.cur, uc); th.cur.g[REG_EFL] &= ~0x100ull;
	if (K.mode == 1) return;
	if (K.tso) sb_out(t, th.unw[th.nlvl - 1] || !K.sbstep);
	int l = th.nlvl - 1, d = th.desc[l];
	u64 used = K.slice_n - u64(K.cd > 0 ? K.cd : 0); if (th.unw[l]) used = 1;
	OpRes& r = SH->out.r[d]; r.steps += used; SH->out.steps += used;
	SH->out.ilhash = mix64(SH->out.ilhash ^ (u64(t) << 56) ^ (u64(l) << 52) ^ th.cur.g[REG_RIP]);
	if (!th.unw[l]) cut_item();
	if (K.mode == 0) {
		if (K.cviol) { RunOut& o = SH->out; o.viol_d = d; o.viol_t = t; o.viol_off = u32(K.cv_addr - (K.cv_addr >= A_GUARD ? A_GUARD - 0x200000 : A_ARENA)); o.viol_old = o.viol_new = 0x100; kexit(S_CONTAIN); }
		containment(t, d);
	}
}
static void check_budget(int t) {
	Thread& th = K.th[t]; if (!th.nlvl) return; int d = th.desc[th.nlvl - 1];
	if (SH->out.r[d].steps >= SH->in.budget) { SH->out.budget_t = t; SH->out.budget_d = d; kexit(S_BUDGET); }
}

// ---- reference runs: one call at a time, quiet, each from the pristine image -----------------------------------
extern "C" { __attribute__((weak)) extern char __start_sut_rodata[], __stop_sut_rodata[]; }
static void find_words() {
	const char* p = __start_sut_rodata; if (!p) return;
	for (const char* b = p; p < __stop_sut_rodata; ++p) {
		const char c = *p;
		if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '-' || c == '.') continue;
		const u32 n = u32(p - b);
		if (!c && n >= 3 && n < 30 && g_nwords < 256) {
			char* w = g_words[g_nwords]; memcpy(w, b, n); w[n] = 0;
			bool again = false; for (u32 i = 0; i < g_nwords; ++i) again |= !strcmp(g_words[i], w);
			if (!again) ++g_nwords;
		}
		b = p + 1;
	}
}
static void ambient(u64 seed) {   // other environment variables than in the quiet process
	static char text[24][64]; static char* env[128]; Rng r(seed); u32 n = 0;
	for (; environ[n] && n < 90; ++n) env[n] = environ[n];
	static const char* const name[4] = { "LC_ALL", "LANG", "LC_NUMERIC", "TZ" };
	for (u32 i = 0; i < 24; ++i) {
		const char* k = r.chance(300) || g_nwords == 16 ? name[r.below(4)] : g_words[16 + (r.chance(500) ? i * 11 : r.below(4096)) % (g_nwords - 16)];
		snprintf(text[i], sizeof text[i], "%s=%s", k, word(r.next())); if (strchr(k, ' ') || !*k) continue;
		env[n++] = text[i];
	}
	env[n] = nullptr; environ = env;
	simx_progname = simx_progname1 = simx_progname2 = simx_progname3 = word(r.next());
}
static void add_snap(u64 lo, u64 n) { K.snap_lo[K.nsnap] = lo; K.snap_n[K.nsnap] = n; ++K.nsnap; }
static void snap_copy(bool back) {
	u64 p = A_SNAP;
	for (u32 i = 0; i < K.nsnap; ++i) { if (back) memcpy((void*)K.snap_lo[i], (void*)p, K.snap_n[i]); else memcpy((void*)p, (void*)K.snap_lo[i], K.snap_n[i]); p += K.snap_n[i]; }
}
static void ref_reset() { 
	u64 top = g_sut.cur; snap_copy(true);
	if (top > g_sut.cur) memset((void*)g_sut.cur, 0, top - g_sut.cur);
	K.natex = 0; for (u32& n : K.ntatex) n = 0; K.clock = 1000000000000ull; memset(K.clkoff, 0, sizeof K.clkoff); K.clockrng = 7;
}
constexpr i64 REF_STEPS = 4000000;   // a call that needs more alone counts as not returning
static void ref_next(ucontext_t* uc) {
	RunIn& in = SH->in;
	for (;;) {
		int d = int(K.refi++);
		if (u32(d) >= in.ndesc) finish_ok();
		if (in.op[d].api >= A_INIT) continue;
		ref_reset();
		Thread& th = K.th[0]; th.nlvl = 0; th.inop = 1; K.curt = 0;
		for (u32 i = 0; i < in.ndesc; ++i) K.dstate[i] = 0;
		memset((void*)A_ARENA, 0x55, 256);
		memset((void*)(A_STACK + PG + in.stack_bytes - 8192), 0, 8192);
		SH->d[d].buf = (char*)A_ARENA + 64;
		start_call(0, d, nullptr);
		K.cd = K.slice_n = REF_STEPS; K.hotcd = INF;
		load_ctx(th.cur, uc); setfs(th.fs); uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
		return;
	}
}
static void ref_crash(ucontext_t* uc) {
	int d = int(K.refi) - 1; SH->refcrash[d] = 1; ref_next(uc);
}

// ---- traps --------------------------------------------------------------------------------------------------------
extern "C" char __executable_start[], etext[];
static u64 g_sut_lo, g_sut_hi;
extern "C" { extern char __start_sut_text[], __stop_sut_text[]; }
static bool in_app_code(u64 rip) {
	// the callback stubs are only entered from instrumented library code
	if (rip >= u64(__start_simrt) && rip < u64(__stop_simrt)) return sut_engine == 1 || rip == u64(&sim_op_done) || rip == u64(&sim_hook_trap_ip) + 1;
	return sut_engine == 1 || (rip >= g_sut_lo && rip < g_sut_hi);
}
static void crash(ucontext_t* uc, int sig, u64 addr) {
	RunOut& o = SH->out;
	if (K.mode >= 2) {
		BK->crash_i = K.bulk_i; BK->crash_sig = sig; BK->stopped = 1; ksys(SYS_exit_group, 0);
	}
	if (K.mode == 1) { slice_end(uc); ref_crash(uc); return; }
	Thread& th = K.th[K.curt];
	o.crash_sig = sig; o.crash_addr = addr; o.crash_rip = uc->uc_mcontext.gregs[REG_RIP]; o.crash_t = K.curt; o.crash_d = th.nlvl ? th.desc[th.nlvl - 1] : 255;
	o.crash_step = o.steps;
	cut_item();
	kexit(S_CRASH);
}
static long emulate(u64* g, bool* yield, bool* die) {
	long n = long(g[REG_RAX]); K.lastsys = u32(n);
	++K.syscalls; ++K.hots;
	*yield = false; *die = false;
	switch (n) {
	case SYS_futex: { int op = int(g[REG_RSI]) & 0x7f; if (op == 0 || op == 9) { *yield = true; return -EAGAIN; } return 0; }
	case SYS_sched_yield: *yield = true; return 0;
	case SYS_nanosleep: case SYS_clock_nanosleep: *yield = true; { timespec* ts = (timespec*)(n == SYS_nanosleep ? g[REG_RDI] : g[REG_RDX]); if (ts) K.clock += u64(ts->tv_sec) * 1000000000 + ts->tv_nsec; } return 0;
	case SYS_gettid: return K.mode == 0 && K.curt >= 0 ? K.tid[K.curt] : 1000; case SYS_getpid: return K.mode == 0 ? K.pid : 1000; case SYS_getppid: return 1; case SYS_set_robust_list: return 0;
	case SYS_exit: case SYS_exit_group: case SYS_tgkill: case SYS_tkill: case SYS_kill: *die = true; return 0;
	case SYS_rt_sigprocmask: { u64& m = K.sigmask[K.mode == 0 && K.curt >= 0 ? K.curt : 0]; u64 o = m, *p = (u64*)g[REG_RSI];
		if (p) switch (g[REG_RDI]) { case 0: m |= *p; break; case 1: m &= ~*p; break; default: m = *p; }
		if (g[REG_RDX]) *(u64*)g[REG_RDX] = o; return 0; }
	case SYS_rt_sigaction: if (g[REG_RSI]) effect(E_SYSCALL + u32(n)); if (g[REG_RDX]) memset((void*)g[REG_RDX], 0, 32); return 0;
	case SYS_arch_prctl: return -EPERM;
	default: break;
	}
	if (n != SYS_close && n != SYS_munmap && refuse()) return n == SYS_mmap || n == SYS_brk || n == SYS_mremap ? -ENOMEM : n == SYS_openat || n == SYS_open ? -EMFILE : -EIO;
	switch (n) {
	case SYS_write: case SYS_writev: if (g[REG_RDI] == 2) { if (!K.effect && K.looking) K.effect = E_SYSCALL + u32(n); } else effect(E_SYSCALL + u32(n));   // (only counts when the call survives it)
		return n == SYS_write && g[REG_RDI] <= 2 ? long(g[REG_RDX]) : -EIO;
	case SYS_clock_gettime: { u64 c = sim_clock(clock_kind(int(g[REG_RDI]))); timespec* ts = (timespec*)g[REG_RSI]; if (ts) { ts->tv_sec = c / 1000000000; ts->tv_nsec = c % 1000000000; } return 0; }
	case SYS_gettimeofday: { u64 c = sim_clock(CL_WALL); timeval* tv = (timeval*)g[REG_RDI]; if (tv) { tv->tv_sec = c / 1000000000; tv->tv_usec = c / 1000 % 1000000; } return 0; }
	case SYS_times: { u64 c = sim_clock(CL_CPU) / 10000000; u64* b = (u64*)g[REG_RDI]; if (b) { b[0] = c; b[1] = c / 8; b[2] = b[3] = 0; } return long(sim_clock(CL_MONO) / 10000000); }
	case SYS_getrusage: { u64 c = sim_clock(CL_CPU); u64* b = (u64*)g[REG_RSI]; if (b) { for (int i = 0; i < 18; ++i) b[i] = 0; b[0] = c / 1000000000; b[1] = c / 1000 % 1000000; } return 0; }
	case SYS_sysinfo: { u64 c = sim_clock(CL_MONO); u64* b = (u64*)g[REG_RDI]; for (int i = 0; i < 14; ++i) b[i] = 0; b[0] = c / 1000000000; b[4] = b[5] = u64(1) << 33; ((u32*)b)[26] = 1; return 0; }
	case SYS_clock_getres: { u64* b = (u64*)g[REG_RSI]; if (b) { b[0] = 0; b[1] = 1; } return 0; }
	case SYS_time: return long(sim_clock(CL_WALL) / 1000000000);
	case SYS_getrandom: { u8* b = (u8*)g[REG_RDI]; u64 len = g[REG_RSI]; for (u64 i = 0; i < len; ++i) { K.clockrng = mix64(K.clockrng); b[i] = u8(K.clockrng); } return long(len); }
	case SYS_read: case SYS_pread64: case SYS_lseek: if (!K.fds.has(g[REG_RDI])) { effect(E_SYSCALL + u32(n)); return -EBADF; } break;
	case SYS_close: if (!K.fds.has(g[REG_RDI])) { effect(E_SYSCALL + u32(n)); return -EBADF; } break;
	case SYS_prlimit64: if (g[REG_RDX]) { effect(E_SYSCALL + u32(n)); return -EPERM; } break;
	case SYS_openat: if ((g[REG_RDX] & 3) != 0 || (g[REG_RDX] & 0x240)) { effect(E_SYSCALL + u32(n)); return -EACCES; } break;
	case SYS_mmap: case SYS_munmap: case SYS_mprotect: case SYS_madvise: case SYS_brk: case SYS_mremap:
	case SYS_fstat: case SYS_newfstatat: case SYS_access: case SYS_readlink: case SYS_uname: case SYS_sched_getaffinity: case SYS_getcpu:
	case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: case SYS_getcwd: case SYS_getpriority: case SYS_getrlimit: case SYS_sched_getscheduler: case SYS_sched_getparam: case SYS_getpgrp: case SYS_getsid:
		break;
	case SYS_membarrier: case SYS_rseq: return -ENOSYS;
	case SYS_ioctl: if (g[REG_RSI] != 0x5401) effect(E_SYSCALL + u32(n)); if (!K.clockjumpy || g[REG_RSI] != 0x5401) return -ENOTTY; break;
	default: effect(E_SYSCALL + u32(n)); return -ENOSYS;
	}
	if (K.clockjumpy) {   // another machine, another user, other files
		K.clockrng = mix64(K.clockrng + u64(n)); const u64 x = K.clockrng;
		switch (n) {
		case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return long(x & 1 ? x >> 44 : 0);
		case SYS_getpriority: case SYS_sched_getscheduler: case SYS_getpgrp: case SYS_getsid: return long(x % 20);
		case SYS_sched_getaffinity: { u8* b = (u8*)g[REG_RDX]; u64 len = g[REG_RSI]; if (len < 8) return -EINVAL; memset(b, 0, len); u64 m = x >> (x & 63) | 1; memcpy(b, &m, 8); return 8; }
		case SYS_getrlimit: { u64* b = (u64*)g[REG_RSI]; b[0] = x & 1 ? ~u64(0) : u64(8192) << (x >> 8 & 15); b[1] = ~u64(0); return 0; }
		case SYS_prlimit64: { u64* b = (u64*)g[REG_R10]; if (b) { b[0] = x & 1 ? ~u64(0) : u64(8192) << (x >> 8 & 15); b[1] = ~u64(0); } return 0; }
		case SYS_uname: { char* b = (char*)g[REG_RDI]; memset(b, 0, 6 * 65); static const char* const v[3][5] = { { "Linux", "host", "6.1.0", "#1", "x86_64" }, { "Linux", "localhost", "4.4.0-generic", "#2 SMP", "x86_64" }, { "Linux", "build7", "5.15.0", "#1", "x86_64" } }; for (int i = 0; i < 5; ++i) strcpy(b + 65 * i, v[x % 3][i]); return 0; }
		case SYS_getcwd: if (g[REG_RSI] < 16) return -ERANGE; strcpy((char*)g[REG_RDI], x & 1 ? "/" : "/home/user"); return long(strlen((char*)g[REG_RDI])) + 1;
		case SYS_access: if (x & 1) return x & 2 ? 0 : -ENOENT; break;
		case SYS_newfstatat: case SYS_readlink: if (x & 1) return -ENOENT; break;
		case SYS_ioctl: if (x & 1) { memset((void*)g[REG_RDX], 0, 36); return 0; } return -ENOTTY;
		case SYS_openat: if (x & 2) return -ENOENT; if (x & 1) {   // there is such a file, but with something else in it
			const long f = ksys(SYS_memfd_create, long("f"), 1); if (f < 0) return -ENOENT;
			for (int i = 0; i < 12; ++i) { char b[80]; const char* w = word(mix64(x + u64(i))), *v = word(mix64(x + 99 + u64(i))); int l = snprintf(b, sizeof b, x & 4 ? "%s=%s\n" : x & 8 ? "%s %s\n" : "%.0s%s\n", w, v); ksys(SYS_write, f, long(b), l); }
			ksys(SYS_lseek, f, 0, 0); if (K.fds.add(u64(f))) ++K.use[U_FILES]; return f; } break;
		}
	}
	const long r = ksys(n, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
	auto pages = [](u64 x) { return i64((x + PG - 1) & ~(PG - 1)); };
	if (r >= 0 || r < -4095) switch (n) {
	case SYS_mmap: K.use[U_MAPPED] += pages(g[REG_RSI]); break;
	case SYS_munmap: K.use[U_MAPPED] -= pages(g[REG_RSI]); break;
	case SYS_mremap: K.use[U_MAPPED] += pages(g[REG_RDX]) - pages(g[REG_RSI]); break;
	case SYS_brk: if (K.brk) K.use[U_MAPPED] += r - K.brk; K.brk = r; break;
	case SYS_openat: if (K.fds.add(u64(r))) ++K.use[U_FILES]; break;
	case SYS_close: K.fds.del(g[REG_RDI]); --K.use[U_FILES]; break;
	}
	return r;
}
static bool trap_tsc(ucontext_t* uc) {
	u64* g = (u64*)uc->uc_mcontext.gregs; u8* p = (u8*)g[REG_RIP];
	if (u64(p) < u64(__executable_start) || u64(p) >= u64(etext)) return false;
	u32 len = 0; if (p[0] == 0x0f && p[1] == 0x31) len = 2; else if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) len = 3;
	if (!len) return false;
	++K.tscs; ++K.hots; u64 c = sim_clock(CL_TSC); g[REG_RAX] = c & 0xffffffff; g[REG_RDX] = c >> 32; if (len == 3) g[REG_RCX] = 0; g[REG_RIP] += len;
	return true;
}
static void op_end(ucontext_t* uc) {
	if (K.mode == 0 && !K.th[K.curt].unw[K.th[K.curt].nlvl - 1]) --K.cd;
	slice_end(uc);
	{ int t = K.curt; Thread& th = K.th[t]; int l = th.nlvl - 1, d = th.desc[l];
	op_finish(t);
	if (K.mode == 0) {
		OpRes& r = SH->out.r[d]; const PlanOp& p = SH->in.op[d];
		if (l > 0 && p.reps && r.nexec <= p.reps) { start_call(t, d, &th.cur); if (K.burst) { resume(uc, t, !--K.burst && K.bpad ? K.bpad : K.slice_n, true); return; } }
		else if (l == 0 && K.burst && p.reps && r.nexec <= p.reps) { resume(uc, t, !--K.burst && K.bpad ? K.bpad : K.slice_n, true); return; }
	} }
	if (K.mode == 1) { SH->out.r[K.refi - 1].steps = u64(REF_STEPS - K.cd); }
	schedule(uc);
}
static void on_hook(ucontext_t* uc) {
	OpDesc* d = (OpDesc*)uc->uc_mcontext.gregs[REG_RDI];
	int di = int(d - SH->d);
	Thread& th = K.th[K.curt];
	if (K.mode == 1) {    // alone: a callback that throws throws, anything else is a plain return
		return;
	}
	--K.cd;     // reaching the callback is a step of its own
	switch (d->beh) {
	case B_THROW: { // the unwinder runs to completion unobserved
		slice_end(uc); th.unw[th.nlvl - 1] = 1;
		K.cd = INF; K.hotcd = INF; K.slice_n = INF; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (K.tso) { sb_flush(K.curt); sb_shadow(); } return; }
	case B_YIELD: slice_end(uc); check_budget(K.curt); schedule(uc); return;
	case B_REENTER: {
		u32 re = SH->in.op[di].reidx;
		if (re < SH->in.ndesc && K.dstate[re] != 1 && th.nlvl < MAXLVL) { slice_end(uc); start_call(K.curt, int(re), &th.cur); schedule(uc); return; }
		break; }
	case B_ABANDON: slice_end(uc); abandon_all(K.curt); schedule(uc); return;
	default: break;
	}
	if (K.cd <= 0) { slice_end(uc); check_budget(K.curt); schedule(uc); }
}
static bool moving() {   // anything new since the watchdog last looked?
	u64 now = K.mode == 3 ? LG->calls : K.mode == 2 ? K.beat : K.mode == 0 ? SH->out.slices : 0;
	bool m = now != K.tick; K.tick = now; return m;
}
extern "C" void k_handler(int sig, siginfo_t* si, ucontext_t* uc) {
	const u8 sel0 = K.selector; K.selector = SUD_ALLOW;
	u64* g = (u64*)uc->uc_mcontext.gregs;
	if (K.in_kernel) {
		if (sig == SIGPROF) { if (moving()) { K.selector = sel0; return; } K.in_kernel = 0; SH->out.crash_sig = sig; kexit(S_HANG); }
		char b[160]; snprintf(b, sizeof b, "simulator kernel fault: signal %d rip %lx addr %lx\n", sig, (unsigned long)g[REG_RIP], (unsigned long)si->si_addr); kmsg(b);
		ksys(SYS_exit_group, 99);
	}
	K.in_kernel = 1;
	switch (sig) {
	case SIGTRAP: {
		u64 rip = g[REG_RIP];
		if (si->si_code == TRAP_TRACE) {
			if (K.mode == 3) { if (--K.cd <= 0) crash(uc, SIGXCPU, 0); break; }
			if (!(rip >= u64(__start_simrt) && rip < u64(__stop_simrt) && rip != u64(&sim_op_done) && rip != u64(&sim_hook_trap_ip))) {
				u64 h = (K.hash ^ rip) * 0x9E3779B97F4A7C15ull; K.hash = h ^ (h >> 29);
				K.cov[rip & 0x3fff] = 1;
				--K.cd;
				if (K.tso) { sb_step(K.curt, (const i64*)g); K.sbstep = 1; }
				if (SH->in.contain) { int t = K.curt; containment(t, K.th[t].desc[K.th[t].nlvl - 1]); }
				if (K.cd <= 0) { slice_end(uc); check_budget(K.curt); schedule(uc); }
			}
		}
		else if (rip - 1 == u64(&sim_cb_trap)) {
			if (K.mode == 1) { crash(uc, SIGXCPU, 0); break; }
			if (K.mode >= 2) { if (!K.cviol && K.cd <= 0) crash(uc, SIGXCPU, 0); break; }
			if (K.hotcd == 0 && K.cd > 0 && !K.cviol) K.hotcut = 1;
			slice_end(uc); check_budget(K.curt); schedule(uc);
		}
		else if (rip - 1 == u64(&sim_op_done)) op_end(uc);
		else if (rip - 1 == u64(&sim_hook_trap_ip)) on_hook(uc);
		else if (rip - 1 == u64(&sim_start_trap)) {
			save_ctx(K.base, uc); K.have_base = 1; schedule(uc);
		}
		else crash(uc, sig, 0);
		break; }
	case SIGSYS: {
		bool y, die; long r = emulate(g, &y, &die);
		if (die) { crash(uc, SIGABRT, K.lastsys); break; }
		g[REG_RAX] = u64(r);
		if (y) {
			if (K.mode >= 2) { BK->crash_i = K.bulk_i; BK->crash_sig = SIGSYS; BK->stopped = 1; ksys(SYS_exit_group, 0); }
			if (K.mode == 1) { if (++K.drain_budget_hits > 1000) { K.drain_budget_hits = 0; crash(uc, SIGSYS, 0); } break; }
			K.cd -= 200; if (K.tso) K.sbstep = 0; slice_end(uc); check_budget(K.curt); schedule(uc);
		}
		break; }
	case SIGPROF: if (moving()) { K.in_kernel = 0; K.selector = sel0; return; } SH->out.crash_sig = sig; if (K.mode >= 2) { crash(uc, sig, 0); } else if (K.mode == 1) crash(uc, sig, 0); else { SH->out.crash_t = K.curt; kexit(S_HANG); } break;
	case SIGSEGV: if (trap_tsc(uc)) break; [[fallthrough]];
	default: crash(uc, sig, u64(si->si_addr)); break;
	}
	K.in_kernel = 0;
	K.selector = K.ended || (K.mode == 3 && sel0 == SUD_ALLOW) ? SUD_ALLOW : SUD_BLOCK;
}

// ---- set-up ------------------------------------------------------------------------------------------------------------
bool kern_have_locale;
static std::locale *g_loc_c, *g_loc_x;
namespace {
	struct Punct : std::numpunct<char> {
		char do_decimal_point() const override { return ','; }
		char do_thousands_sep() const override { return '.'; }
		std::string do_grouping() const override { return "\3"; }
		std::string do_truename() const override { return "wahr"; }
	};
}
static void set_locale(u32 l) {
	if (K.cloc == l) return;
	K.cloc = l;
	std::locale::global(l ? *g_loc_x : *g_loc_c);
	if (kern_have_locale) setlocale(LC_ALL, l ? "de_DE.UTF-8" : "C");
}
static volatile int g_parked;
static pthread_mutex_t g_never = PTHREAD_MUTEX_INITIALIZER;
static void* parked(void* a) {
	int t = int(long(a));
	K.park[t].fs = getfs(); K.park[t].err = &errno;
	__atomic_add_fetch(&g_parked, 1, __ATOMIC_SEQ_CST);
	for (;;) ksys(SYS_futex, long(&g_never), 0, *(int*)&g_never, 0, 0, 0);
	return nullptr;
}
static void map_fixed(u64 a, u64 n, int prot, bool shared) {
	void* p = mmap((void*)a, n, prot, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (p != (void*)a) { kmsg("simulator: mmap failed\n"); ksys(SYS_exit_group, 98); }
}
void kern_init() {
	map_fixed(A_KERN, (sizeof(Kern) + PG) & ~(PG - 1), PROT_READ | PROT_WRITE, false);
	new ((void*)A_KERN) Kern{};
	map_fixed(A_SHARED, (sizeof(Shared) + PG) & ~(PG - 1), PROT_READ | PROT_WRITE, true);
	map_fixed(A_BULK, ((sizeof(BulkShared) + PG) & ~(PG - 1)) + ((sizeof(LongShared) + PG) & ~(PG - 1)), PROT_READ | PROT_WRITE, true);
	map_fixed(A_ARENA - PG, ARENA_SZ + 2 * PG, PROT_NONE, false);
	mprotect((void*)A_ARENA, ARENA_SZ, PROT_READ | PROT_WRITE);
	map_fixed(A_GUARD, (2 * MAXD + 1) * PG, PROT_NONE, false);
	for (int i = 0; i < MAXD; ++i) mprotect((void*)(A_GUARD + (2 * i + 1) * PG), PG, PROT_READ | PROT_WRITE);
	map_fixed(A_STACK, NSTK * STACK_SZ, PROT_READ | PROT_WRITE, false);
	for (int t = 0; t < NSTK; ++t) mprotect((void*)(A_STACK + t * STACK_SZ), PG, PROT_NONE);
	map_fixed(A_TSTACK, NPARK * TSTACK_SZ, PROT_READ | PROT_WRITE, false);
	map_fixed(A_ALT, 0x40000, PROT_READ | PROT_WRITE, false);
	map_fixed(A_SNAP, u64(1) << 26, PROT_READ | PROT_WRITE, false);
	arena_up(g_sut, A_HEAP, u64(1) << 30);
	eh_init();
	g_fsgsbase = (getauxval(26 /*AT_HWCAP2*/) >> 1) & 1;
	for (int t = 0; t < NPARK; ++t) {   // the first ones at regular distances, like threads with stacks of the default size
		pthread_attr_t at; pthread_attr_init(&at);
		pthread_attr_setstack(&at, (void*)(A_TSTACK + t * TSTACK_SZ), t < 8 ? TSTACK_SZ : TSTACK_SZ - (t < 28 ? (mix64(t) & 31) * PG : (mix64(t) & 2047) * 64));
		pthread_t th; if (pthread_create(&th, &at, parked, (void*)long(t))) { kmsg("simulator: pthread_create failed\n"); ksys(SYS_exit_group, 98); }
	}
	while (__atomic_load_n(&g_parked, __ATOMIC_SEQ_CST) < NPARK) ksys(SYS_sched_yield);
	for (int t = 0; t < MAXT; ++t) { K.th[t].fs = K.park[t].fs; K.th[t].err = K.park[t].err; }
	u64 lo = ~0ull, hi = 0;
	auto ph = (Elf64_Phdr*)getauxval(AT_PHDR); u64 n = getauxval(AT_PHNUM);
	for (u64 i = 0; i < n; ++i) if (ph[i].p_type == PT_LOAD && (ph[i].p_flags & PF_W)) {
		u64 a = ph[i].p_vaddr, b = a + ph[i].p_memsz; if (a < lo) lo = a; if (b > hi) hi = b;
		add_snap(a, ph[i].p_memsz);
	}
	K.w_lo = lo; K.w_len = hi - lo;
	for (u64 i = 0; i < n; ++i) if (ph[i].p_type == PT_TLS) { u64 al = ph[i].p_align ? ph[i].p_align : 1; K.tls_n = (ph[i].p_memsz + al - 1) / al * al; }
	if (K.tls_n > 0x30000) K.tls_n = 0x30000;
	add_snap(A_TSTACK + TSTACK_SZ - 0x4000, 0x4000);
	K.cd = INF; K.hotcd = INF; K.curt = -1;
	g_loc_c = new std::locale(std::locale::classic());
	g_loc_x = new std::locale(std::locale::classic(), new Punct);
	kern_have_locale = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
	if (kern_have_locale) { struct lconv* lc = localeconv(); kern_have_locale = lc->decimal_point[0] == ','; }
	setlocale(LC_ALL, "C");
	find_words();
	g_sut_lo = u64(__start_sut_text); g_sut_hi = u64(__stop_sut_text);
	g_up = true;
}
struct ksa { void* h; unsigned long flags; void* rest; unsigned long mask; };
static void child_begin() {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	stack_t ss{}; ss.ss_sp = (void*)A_ALT; ss.ss_size = 0x40000; sigaltstack(&ss, nullptr);
	ksa a{ (void*)k_handler, SA_SIGINFO | SA_ONSTACK | SA_NODEFER | 0x04000000, (void*)sim_restorer, 0 };
	for (int s : { SIGTRAP, SIGSYS, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF }) ksys(SYS_rt_sigaction, s, long(&a), 0, 8);
	itimerval tv{}; tv.it_value.tv_sec = K.mode == 1 ? 5 : 2; tv.it_interval.tv_sec = 2; ksys(SYS_setitimer, ITIMER_PROF, long(&tv), 0);
	K.selector = SUD_ALLOW;
	if (ksys(SYS_prctl, 59, 1, long(sim_restorer), long(sim_restorer_end) - long(sim_restorer), long(&K.selector))) { kmsg("simulator: no syscall user dispatch\n"); ksys(SYS_exit_group, 97); }
	if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0)) { kmsg("simulator: cannot trap the time stamp counter\n"); ksys(SYS_exit_group, 97); }
	K.clock = 1000000000000ull; memset(K.clkoff, 0, sizeof K.clkoff); K.clockrng = 7; K.hash = 1; K.hots = 0;
	K.cd = INF; K.hotcd = INF;
	memset(K.cov, 0, sizeof K.cov);
}
static void inits_now() {   // ordinary start-up: static initialisers on the main thread, real allocator arena of the library
	K.in_sut = 1; K.running = 1; K.quiet = 1;
	u64 me = getfs(); setfs(K.th[0].fs);
	sim_run_init(nullptr);
	setfs(me);
	K.quiet = 0; K.in_sut = 0; K.cd = INF; K.hotcd = INF; K.hash = 1; K.hots = 0; K.allocs = 0;
}
static void go() {
	K.running = 1; K.in_sut = 1; K.in_kernel = 0;
	sim_start_trap();
	__builtin_trap();
}
constexpr u64 STACK_DIRT = 2560;
static void fill8(u8* p, Rng& f, u32 mode) {   // prior contents of memory
	u64 v = f.next();
	if (mode == 1) for (int i = 0; i < 8; ++i) p[i] = u8(kAlpha[(v >> (8 * i)) & 31]);
	else if (mode == 2) memset(p, kAlpha[SH->in.fill_seed & 31], 8);
	else memcpy(p, &v, 8);
}
void kern_run_child() {
	RunIn& in = SH->in;
	K.mode = 0; child_begin();
	memset(&SH->out, 0, sizeof SH->out);
	if (in.clock_random) { ambient(in.seed); K.clockjumpy = 1; K.clockrng = mix64(in.seed + 1); }
	if (in.init_locale) set_locale(1);
	if (!in.lateinit) inits_now();
	if (in.init_locale) set_locale(0);
	K.rng = Rng(in.seed); K.contain = in.contain; K.tf = sut_engine == 2; K.clockjumpy = u8(in.clock_random); K.clockrng = mix64(in.seed);
	for (u32 t = 0; t < in.nthreads; ++t) { Park& p = K.park[in.tsel[t] % NPARK]; K.th[t].fs = p.fs; K.th[t].err = p.err; in.ssel[t] %= NSTK; K.tid[t] = in.tid[t]; K.born[t] = 0; }
	K.pid = in.pid;
	if (in.newthreads || in.succ[0] | in.succ[1] | in.succ[2] | in.succ[3]) for (u32 t = 0; t < in.nthreads; ++t) { if (in.succ[t] > in.nthreads || in.succ[t] == t + 1) in.succ[t] = 0; memcpy((void*)(A_SNAP + t * (u64(1) << 20)), (void*)(K.th[t].fs - K.tls_n), K.tls_n); }
	Rng f(in.fill_seed);
	u32 fmode = u32(f.below(4));
	for (u32 i = 0; i < in.arena_used; i += 8) fill8((u8*)A_ARENA + i, f, fmode);
	for (u32 d = 0; d < in.ndesc; ++d) if (in.pre[d][0] && in.op[d].layout == L_PACKED) memcpy((u8*)A_ARENA + in.op[d].slot, in.pre[d], in.op[d].slot + 32 <= in.arena_used ? 32 : in.arena_used - in.op[d].slot);
	memcpy(K.shadow, (void*)A_ARENA, in.arena_used);
	for (u32 t = 0; t < in.nthreads; ++t) { u64 top = A_STACK + in.ssel[t] * STACK_SZ + PG + in.stack_bytes; for (u64 a = (top - STACK_DIRT) & ~u64(7); a + 8 <= top; a += 8) *(u64*)a = f.next(); }
	for (u32 d = 0; d < in.ndesc; ++d) {
		PlanOp& p = in.op[d]; u64 len = p.len + p.nul;
		if (p.layout == L_PACKED) { SH->d[d].buf = (char*)A_ARENA + p.slot; continue; }
		u8* pg = (u8*)(A_GUARD + (2 * d + 1) * PG);
		for (u32 i = 0; i < PG; i += 8) fill8(pg + i, f, fmode);
		SH->d[d].buf = p.layout == L_GUARD_END ? (char*)pg + PG - len : (char*)pg;
		if (in.pre[d][0]) memcpy(SH->d[d].buf, in.pre[d], len < 32 ? len : 32);
		memcpy(K.gshadow[d], pg, PG);
	}
	for (u32 d = 0; d < in.ndesc; ++d) if (in.op[d].place > P_STACK) for (u32 t = 0; t < in.nthreads; ++t) for (u32 i = 0; i < 40; i += 8) fill8((u8*)destination(int(t), int(d)) + i, f, fmode);
	K.afail = u8(in.afail0);
	memset(K.use, 0, sizeof K.use); K.pass = 0; if (in.effects) { pending(); K.looking = 1; world(0); }
	K.tso = in.tso && K.tf && in.nthreads > 1;
	if (K.tso) {
		K.sb_lo[0] = u64(__start_sut_data); K.sb_len[0] = u64(__stop_sut_data - __start_sut_data); K.sb_lo[1] = u64(__start_sut_bss); K.sb_len[1] = u64(__stop_sut_bss - __start_sut_bss);
		K.sb_heap = K.allocs; K.sbrng = Rng(in.tso); if (K.sb_len[0] + K.sb_len[1] == 0 || K.sb_len[0] + K.sb_len[1] > SBREG) K.tso = 0;
	}
	go();
}
void kern_ref_child() {
	K.mode = 1; child_begin(); memset(&SH->out, 0, sizeof SH->out); memset(SH->refcrash, 0, sizeof SH->refcrash);
	inits_now(); K.quiet = 1; K.tf = 0; SH->in.budget = 1u << 30; K.natex = 0; 
	for (u32 t = 0; t < MAXT; ++t) SH->in.ssel[t] = 0;
	if (!SH->in.stack_bytes) SH->in.stack_bytes = STACK_SZ - PG - 256;
	snap_copy(false);
	go();
}
static u64 digest(const OpDesc& o, bool text, u32* len) {
	u64 h = mix64(o.sig ^ mix64(u64(o.exp) ^ mix64(o.neg ^ mix64(o.cls ^ mix64(o.threw ^ mix64(o.hcalls ^ mix64(o.hbits)))))));
	*len = 0;
	if (text && !o.threw) {
		i64 n = o.end - o.buf; h = mix64(h ^ u64(n));
		u32 m = o.api == A_CHARS ? 1 : 0;
		if (n >= 0 && n <= 64) { for (i64 i = 0; i < n + m; ++i) h = (h ^ u8(o.buf[i])) * 0x100000001b3ull; *len = u32(n + m); h = mix64(h); }
	}
	return h;
}
static void berr(u32 i, u32 what, u64 det) { if (BK->nerr < 64) { auto& e = BK->err[BK->nerr++]; e.i = i; e.what = what; e.detail = det; } }
void kern_bulk_child(int which) {
	K.mode = 2; child_begin(); K.bulk_which = which;
	BK->stopped = 0; BK->nerr = 0; if (!which) { BK->hots_total = 0; }
	BulkProf pf = BK->prof; if (which) { memset(&pf, 0, sizeof pf); }
	if (pf.loc) { ambient(pf.seed); set_locale(pf.seed & 1); K.clockjumpy = 1; K.clockrng = mix64(pf.seed + 3); }
	inits_now();
	u32 n = BK->n;
	u32* ord = (u32*)mmap(nullptr, n * 4 + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (u32 i = 0; i < n; ++i) ord[i] = i;
	if (!which && BK->order == 1) for (u32 i = 0; i < n; ++i) ord[i] = n - 1 - i;
	if (!which && BK->order == 2) { Rng r(pf.seed + 99); for (u32 i = n; i > 1; --i) { u32 j = u32(r.below(i)); u32 x = ord[i - 1]; ord[i - 1] = ord[j]; ord[j] = x; } }
	OpDesc& o = SH->d[0];
	u64 me = getfs();
	u64 steps0 = 0;
	K.afail = pf.afail; K.running = 1; K.quiet = u8(which); K.clockjumpy = u8(pf.loc); K.clockrng = mix64(pf.seed);
	u64 bulk_top = A_STACK + PG + (pf.stack8k ? 8192 : STACK_SZ - PG - 256);
	K.contain = pf.contain; if (pf.effects) { pending(); world(0); K.looking = 1; K.effect = 0; }
	if (pf.loc) set_locale(1);
	Rng fr(pf.seed + 5 + u64(which) * 1000);
	for (u32 k = 0; k < n; ++k) {
		u32 i = ord[k]; BulkOp& b = BK->op[i]; K.bulk_i = i; K.beat = k + 1;
		if (pf.loc && (k & 63) == 63) set_locale((k >> 6) & 1);
		o.api = b.api; o.dbl = b.dbl; o.mode = b.mode; o.crs = b.crs; o.beh = B_NONE; o.bits = b.bits; 
		o.sig = 0; o.exp = 0; o.neg = 0; o.end = nullptr; o.cls = 0; o.threw = 0; o.hcalls = 0; o.hbits = 0; o.calling = 0; o.nested = 0;
		bool text = is_text(o.api);
		u32 ln = which ? 0 : BK->len[i];
		u32 lay = which || !pf.contain ? 0 : b.slotfill & 3;
		u8* win; u32 wn;
		u8* pg = (u8*)(A_GUARD + PG);
		if (lay == 1) { o.buf = (char*)pg + PG - ln; win = pg + PG - 96; wn = 96; }
		else if (lay == 2) { o.buf = (char*)pg; win = pg; wn = 96; }
		else if (pf.place) { u32 z = b.slotfill; o.buf = (char*)A_ARENA + ((z >> 8) & 3 ? 64 + ((z >> 10) & 127) : (1 + ((z >> 10) & 3)) * PG - (z >> 20) % 40); win = (u8*)(u64(o.buf - 16) & ~u64(7)); wn = 64; }
		else { o.buf = (char*)A_ARENA + 64 + (BK->prof.place ? 0 : (b.slotfill >> 8) & 15); win = (u8*)A_ARENA + 16; wn = 160; }
		if (text) {
			u32 fm = which ? 3 : (b.slotfill >> 12) & 3;    // 0: leftovers of earlier calls
			if (fm || lay) for (u32 q = 0; q < wn; q += 8) { u64 v = fr.next(); if (fm == 1) for (int z = 0; z < 8; ++z) win[q + z] = u8(kAlpha[(v >> (8 * z)) & 31]); else if (fm == 2) memset(win + q, kAlpha[(b.slotfill >> 14) & 31], 8); else memcpy(win + q, &v, 8); }
			if (pf.contain) memcpy(K.bulk_window, win, wn);
		}
		u32 mx = 0x1f80; u16 cw = 0x37f; u64 rr = mix64(pf.seed ^ (u64(i) << 20));
		if (pf.env) {
			mx = 0x1f80 | u32((rr & 3) << 13) | ((rr & 4) ? 0x8000 : 0) | ((rr & 8) ? 0x40 : 0);
			cw = u16(0x7f | (((rr >> 4) & 3) << 8) | (((rr >> 6) & 3) << 10));
			if (pf.check && (rr & 0x100)) { mx &= ~u32(((rr >> 9) & 63) << 7); cw &= u16(~((rr >> 15) & 63)); }
			else if (pf.check) mx |= u32((rr >> 9) & 63);
		}
		int e0 = pf.check ? int((rr >> 24) & 127) : 0;
		K.c_lo = u64(o.buf); K.c_hi = K.c_lo + ln; K.cviol = 0;
		u64 h0 = K.hots, al0 = K.allocs; K.nha = 0;
		K.scouting = u8(BK->scout);
		opfn_t fn = sut_lookup(&o);
		const Park& pk = K.park[pf.place ? (rr >> 42) % 3 ? 0 : (rr >> 48) % NPARK : 0];
		setfs(pk.fs); *pk.err = e0; if (pf.exc) eh_state(pk.fs, u32(rr >> 58) % 3);
		if (pf.env) { asm volatile("fninit"); setcw(cw); setmx(mx); }
		K.in_kernel = 0; K.in_sut = 1; K.selector = SUD_BLOCK;
		K.cd = 2000000; K.areq[0] = 0;
		sim_stackcall(bulk_top - (pf.place ? (rr >> 32 & 1023) * 16 : 0), (void*)fn, &o);
		K.selector = SUD_ALLOW; if (K.looking) world_check(); K.in_sut = 0;
		if (K.scouting) {
			K.scouting0 = K.scouting; K.scouting = 0; u32 best = 0xffffffffu; BK->rare[i] = 0;
			for (u32 z = 0; z < K.nft; ++z) { u32 c = K.fc[K.ft[z]], bk = c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : 7; K.fc[K.ft[z]] = 0; u32 id = u32(mix64(K.ft[z] * 8ull + bk)) & ((1 << 18) - 1); if (K.scouting0 == 1) ++BK->ffreq[id]; if (BK->ffreq[id] < best) { best = BK->ffreq[id]; BK->rare[i] = id; } }
			K.nft = 0;
		}
		steps0 += u64(2000000 - K.cd); K.cd = INF;
		u32 mx1 = getmx(); u16 cw1 = getcw(), sw1 = getsw(); int e1 = *pk.err;
		if (pf.env) { asm volatile("fninit"); setmx(0x1f80); }
		setfs(me);
		BK->hot[i] = u32(K.hots - h0 + (K.allocs - al0));
		BK->hots_total += K.hots - h0; for (u32 z = 0; z < 4; ++z) BK->haddr[i][z] = z < K.nha ? K.ha[z] : 0;
		u32 got; BK->dig[which][i] = digest(o, text, &got); if (which) BK->len[i] = u8(got);
		if (K.looking && (K.effect || K.sigmask[0])) { berr(i, BE_EFFECT, K.effect ? K.effect : E_SIGMASK); K.effect = 0; K.sigmask[0] = 0; }
		if (pf.check) {
			if (mx1 != mx || cw1 != cw || (sw1 & 0x3f7f)) berr(i, BE_ENV, u64(mx) << 32 | mx1);
			if (e1 != e0) berr(i, BE_ERRNO, u64(e0) << 32 | u32(e1));
		}
		if (pf.contain && text) {
			for (u32 q = 0; q < wn; ++q) if (win[q] != K.bulk_window[q] && !(u64(win + q) >= K.c_lo && u64(win + q) < K.c_hi)) { berr(i, BE_CONTAIN, u64(i64(u64(win + q) - K.c_lo))); break; }
			if (K.cviol) berr(i, BE_CONTAIN, u64(i64(K.cv_addr - K.c_lo)));
		}
		if (BK->nerr >= 16) break;
	}
	BK->allocs = K.allocs; BK->syscalls = K.syscalls; BK->steps = steps0;
	for (u32 i = 0; i < sizeof K.cov; ++i) if (K.cov[i]) SH->cov[i] = 1;
	BK->stopped = 2;
	ksys(SYS_exit_group, 0);
}

// A history of very many calls, at full speed: what is called next is a function of the seed, every result is compared.
void kern_long_child() {
	K.mode = 3; child_begin(); BK->stopped = 0;
	const u64 lim = LG->total; BulkProf pf = LG->prof; double secs = LG->secs;
	timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
	inits_now();
	const u32 n = BK->n; u64 me = getfs(); const u64 fs = K.th[0].fs;
	K.afail = pf.afail; K.running = 1; K.quiet = 1; K.clockrng = mix64(LG->seed); K.c_lo = 0; K.c_hi = 0;
	OpDesc& o = SH->d[0]; Rng r(LG->seed); u64 left = 0, made = 0; u32 i = 0, mode = 0, span = n, at = 0;
	const u64 top = A_STACK + PG + STACK_SZ - PG - 256;
	static opfn_t fn[MAXLONG]; static u8 tx[MAXLONG];
	for (u32 k = 0; k < n; ++k) { BulkOp& b = BK->op[k]; o.api = b.api; o.dbl = b.dbl; o.mode = b.mode; o.crs = b.crs; fn[k] = sut_lookup(&o); tx[k] = is_text(b.api); }
	o.beh = B_NONE; o.calling = 0; o.nested = 0; o.buf = (char*)A_ARENA + 64;
	LG->fail_at = ~0ull; LG->calls = 0; LG->fail_effect = 0; if (pf.effects) { pending(); world(0); K.looking = 1; K.effect = 0; }
	while (made < lim) {
		if (!left) {   // next stretch: one call over and over, or a few, or all
			left = 1 + r.below(u64(1) << (4 + r.below(18))); mode = u32(r.below(3)); i = u32(r.below(n)); at = i; span = mode == 0 ? 1 : mode == 1 ? 2 + u32(r.below(14)) : n;
			LG->calls = made; BK->crash_i = u32(i);
			timespec t1; ksys(SYS_clock_gettime, CLOCK_MONOTONIC, long(&t1)); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
		}
		--left;
		if (mode) { if (++at == span) at = 0; i = mode == 1 ? u32((u64(at) * 2654435761u + span) % n) : at; }
		BulkOp& b = BK->op[i];
		o.api = b.api; o.dbl = b.dbl; o.mode = b.mode; o.crs = b.crs; o.bits = b.bits; o.sig = 0; o.exp = 0; o.neg = 0; o.end = nullptr; o.cls = 0; o.threw = 0; o.hcalls = 0; o.hbits = 0;
		K.bulk_i = i; LG->calls = made;
		setfs(fs);
		K.in_kernel = 0; K.in_sut = 1; K.selector = SUD_BLOCK; K.cd = 2000000; K.areq[0] = 0;
		sim_stackcall(top, (void*)fn[i], &o);
		K.selector = SUD_ALLOW; if (__builtin_expect(K.looking && (K.effect || !left), 0)) { world_check(); if (K.sigmask[0]) effect(E_SIGMASK); } K.in_sut = 0;
		setfs(me);
		++made; u32 ln;
		if (__builtin_expect(K.effect, 0)) { LG->fail_effect = K.effect; LG->fail_at = made - 1; LG->fail_i = i; break; }
		if (__builtin_expect(digest(o, tx[i], &ln) != LG->want[i], 0)) { LG->fail_at = made - 1; LG->fail_i = i; break; }
	}
	LG->calls = made; BK->stopped = 2;
	ksys(SYS_exit_group, 0);
}

// The same history again and again, in one process; what is in use is noted each time it was gone through.
void kern_leak_child() {
	K.mode = 3; child_begin(); BK->stopped = 0;
	BulkProf pf = LG->prof;
	inits_now();
	const u32 n = BK->n; u64 me = getfs();
	K.running = 1; K.quiet = 1; K.c_lo = 0; K.c_hi = 0; K.leak = 1;
	OpDesc& o = SH->d[0];
	const u64 top = A_STACK + PG + STACK_SZ - PG - 256;
	o.calling = 0; o.nested = 0; o.buf = (char*)A_ARENA + 64;
	const u32 nt = 1 + u32(LG->seed % 4);
	for (u32 t = 0; t < nt; ++t) memcpy((void*)(A_SNAP + t * (u64(1) << 20)), (void*)(K.th[t].fs - K.tls_n), K.tls_n);
	memset(K.use, 0, sizeof K.use); LG->calls = 0; LG->fail_at = ~0ull; LG->done = 0;
	// other values of the same kind every time
	auto bits = [&](const BulkOp& b, u64 x) { if (!LG->fresh) return b.bits; u32 w = b.dbl || LG->fresh < 23 ? LG->fresh : 23; u64 y = b.bits ^ (mix64(x ^ LG->seed) & ((u64(1) << w) - 1)); return b.dbl ? y << 1 ? y : b.bits : u32(y) << 1 ? y : b.bits; };
	for (u32 q = 0; q < n; ++q) { LG->opcost[0][q] = LG->opcost[1][q] = 0; LG->opcost[2][q] = ~0u; } u32 when = 0;
	auto cost = [&](u64 c) { K.use[U_TOTAL] += i64(c); if (i64(c) > K.use[U_COST]) K.use[U_COST] = i64(c); u32& x = LG->opcost[when][K.bulk_i]; if (when < 2 ? c > x : c < x) x = u32(c); };
	for (u32 s = 0; s < LG->segs; ++s) {
		when = s < LG->segs / 2 ? (s < 3 ? 0 : 1) : s >= LG->segs - 1 - LG->segs / 12 ? 2 : 1;
		Rng r(LG->seed); K.afail = 0; K.clockrng = mix64(LG->seed); u32 t = 0; u64 each = 1 + r.below(u64(1) << (1 + r.below(12))), left = each;
		auto end_thread = [&] {   // the thread ends; the next one has its place
			K.curt = int(t); setfs(K.th[t].fs); K.in_kernel = 0; K.in_sut = 1; K.selector = SUD_BLOCK; K.cd = 2000000; K.areq[0] = 0; K.afail = 0;
			o.bits = 0; sim_stackcall(top, (void*)sim_run_texit, &o);
			K.selector = SUD_ALLOW; K.in_sut = 0; setfs(me); fresh_thread(int(t));
		};
		for (u64 k = 0; k < LG->total; ++k) {
			if (!left--) { if (LG->newthreads) end_thread(); left = each; t = u32(r.below(nt)); }
			u32 i = u32(k < n ? k : r.below(n)); BulkOp& b = BK->op[i]; u64 z = r.next();
			static const u8 pat[8] = { 1, 1, 1, 2, 4, 254, 252, 253 }; if (pf.afail) K.afail = z & 7 ? 0 : pat[z >> 3 & 7];
			o.api = b.api; o.dbl = b.dbl; o.mode = b.mode; o.crs = b.crs; o.bits = bits(b, (u64(s) << 40) + k); o.sig = 0; o.exp = 0; o.neg = 0; o.end = nullptr; o.cls = 0; o.threw = 0; o.hcalls = 0; o.hbits = 0; o.lives = 0;
			o.beh = has_cb(o.api) && !K.afail && (b.slotfill & 0x1c0) == 0 ? B_THROW : B_NONE;
			if (pf.loc && (z & 0x7f00) == 0) set_locale(u32(z >> 15 & 1));
			K.bulk_i = i; ++LG->calls; K.curt = int(t);
			setfs(K.th[t].fs);
			opfn_t fn = sut_lookup(&o);
			K.in_kernel = 0; K.in_sut = 1; K.selector = SUD_BLOCK; K.cd = 2000000; K.areq[0] = 0;
			sim_stackcall(top, (void*)fn, &o);
			K.selector = SUD_ALLOW; K.in_sut = 0;
			setfs(me);
			if (LG->cost && sut_engine == 1) cost(u64(2000000 - K.cd));
			if (o.lives) { LG->fail_at = LG->calls - 1; LG->fail_i = i; BK->stopped = 2; ksys(SYS_exit_group, 0); }
		}
		if (LG->cost && sut_engine == 2) for (u32 q = 0; q < 8; ++q) {   // some calls one instruction at a time
			u32 i = u32(u64(q) * n / 8); BulkOp& b = BK->op[i]; K.bulk_i = i; K.curt = int(t); K.afail = 0;
			o.api = b.api; o.dbl = b.dbl; o.mode = b.mode; o.crs = b.crs; o.bits = bits(b, (u64(s) << 40) + q + (u64(1) << 39)); o.beh = B_NONE; o.hcalls = 0; o.lives = 0;
			setfs(K.th[t].fs); opfn_t fn = sut_lookup(&o);
			K.in_kernel = 0; K.in_sut = 1; K.selector = SUD_BLOCK; K.cd = 2000000; K.areq[0] = 0;
			asm volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
			sim_stackcall(top, (void*)fn, &o);
			asm volatile("pushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
			K.selector = SUD_ALLOW; K.in_sut = 0; setfs(me); cost(u64(2000000 - K.cd));
		}
		if (LG->newthreads) for (t = 0; t < nt; ++t) end_thread();
		if (pf.loc) set_locale(0);
		memcpy(LG->use[s], K.use, sizeof K.use); LG->done = s + 1; K.use[U_COST] = K.use[U_TOTAL] = 0;
		if (LG->cost && s > 6 && LG->use[s][U_TOTAL] > 16 * LG->use[1][U_TOTAL]) break;   // (enough seen)
	}
	BK->allocs = K.allocs; BK->syscalls = K.syscalls;
	BK->stopped = 2; ksys(SYS_exit_group, 0);
}
