// Driver: generates workloads and fault plans from a seed, obtains the reference results (each call alone, in
// a pristine image), runs them under the simulator kernel, judges the recorded history, minimises and replays.
#include "kernel.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/personality.h>

using std::string; using std::vector;

enum Prop { C01 = 1, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C26 = 26, C27, C28, C29 };
static const char* const mode_name[NMODE] = { "nearest_to_even", "nearest_to_odd", "nearest_toward_plus_infinity", "nearest_toward_minus_infinity",
	"nearest_toward_zero", "nearest_away_from_zero", "nearest_to_even_static_boundary", "nearest_to_odd_static_boundary",
	"toward_plus_infinity", "toward_minus_infinity", "toward_zero", "away_from_zero", "nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary" };
static const char* const crs_name[NCRS] = { "tie_to_even", "tie_to_odd", "tie_to_up", "tie_to_down", "do_not_care" };
static const char* api_name(int a) {
	static const char* const n[NAPI] = { "fp_to_chars", "fp_to_chars_n", "grisu_exact<true>", "grisu_exact<false>", "bit_representation", "grisu_exact+case_handler", "fp_to_chars_n+policy", "grisu_exact<false>+case_handler", "grisu_exact+policy", "fp_to_chars_n+search" };
	return a < NAPI ? n[a] : a == A_INIT ? "static_initialisers" : a == A_FINI ? "static_destructors" : "thread_exit_destructors";
}
static const char* const beh_name[NBEH] = { "", "yield", "throw", "reenter", "abandon" };

struct Ref { OpRes r; bool crash; };
static Ref g_ref[MAXD];

// ---- running one simulation in a fork of the pristine template -----------------------------------------------------
static u64 g_forks;
template <class F> static int in_child(F f) {
	++g_forks;
	fflush(stdout); fflush(stderr);
	pid_t p = _Fork();
	if (p == 0) { f(); _exit(96); }
	if (p < 0) { perror("fork"); exit(2); }
	int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(2); }
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void die(const char* what, int st) { fprintf(stderr, "simulator error: %s (child status %d)\n", what, st); exit(2); }
static RunOut& run_sim(const RunIn& in) {
	SH->in = in;
	SH->out.status = S_NONE;
	int st = in_child(kern_run_child);
	if (st != 0 || SH->out.status == S_NONE) {
		// the child was lost altogether (e.g. its stack or the simulator's memory was overwritten): that is itself an outcome
		SH->out.status = S_CRASH; SH->out.crash_sig = 2000 + st; SH->out.crash_d = 255;
		if (st >= 97 && st <= 99) die(st == 99 ? "fault inside the simulator" : "set-up", st);
	}
	return SH->out;
}
static void run_refs(const RunIn& in) {
	SH->in = in;
	SH->in.stack_bytes = 0; 
	for (u32 d = 0; d < in.ndesc; ++d) { SH->in.op[d].len = 0; SH->in.op[d].nul = 0; }
	int st = in_child(kern_ref_child);
	if (st != 0) die("reference run", st);
	for (u32 d = 0; d < in.ndesc; ++d) { g_ref[d].r = SH->out.r[d]; g_ref[d].crash = SH->refcrash[d] || !SH->out.r[d].done; }
}

// ---- values -----------------------------------------------------------------------------------------------------------
static u64 dbits(double x) { u64 b; memcpy(&b, &x, 8); return b; }
static u64 fbits(float x) { u32 b; memcpy(&b, &x, 4); return b; }
struct HotOp { u8 api, dbl, mode, crs; u64 bits; u64 addr = 0; };
static vector<HotOp> g_rare; static vector<u64> g_konst;   // calls that take paths few calls take; constants the library compares with
static vector<HotOp> g_hot; static std::map<u64, vector<u32>> g_hotaddr;   // calls seen touching shared mutable state, and which share it
static u64 gen_bits(Rng& r, bool dbl, u32 what = 16) {
	const int mb = dbl ? 52 : 23, eb = dbl ? 11 : 8; const u64 mm = (u64(1) << mb) - 1, em = (u64(1) << eb) - 1;
	auto mk = [&](u64 s, u64 e, u64 m) { return (s << (mb + eb)) | ((e & em) << mb) | (m & mm); };
	u64 s = r.below(4) == 0;
	if (what == 16 && !g_konst.empty() && r.chance(80)) {   // values in which a constant of the library turns up
		u64 c = g_konst[r.below(g_konst.size())] + r.below(5) - 2; if (r.below(8) == 0) c = ~c; if (r.below(8) == 0) c >>= r.below(32);
		char b[64];
		switch (r.below(7)) {
		case 0: return dbl ? c : c & 0xffffffff;
		case 1: return mk(s, r.below(em), c);
		case 2: return mk(s, c, r.below(2) ? 0 : r.next());
		case 3: return mk(s, c + em / 2 + (r.below(2) ? u64(mb) : 0), r.below(2) ? 0 : r.next());
		case 4: return dbl ? dbits(double(i64(c))) : fbits(float(i64(c)));
		case 5: snprintf(b, sizeof b, "%llue%d", (unsigned long long)c, int(r.below(dbl ? 600 : 70)) - (dbl ? 320 : 45)); break;
		default: snprintf(b, sizeof b, "%llue%d", (unsigned long long)(1 + r.below(r.below(2) ? 9 : 99999999)), int(i64(c) % 340)); break;
		}
		u64 v = dbl ? dbits(strtod(b, nullptr)) : fbits(strtof(b, nullptr)); return v | (s << (mb + eb));
	}
	switch (what < 16 ? what : r.below(16)) {
	default: return r.next() & (dbl ? ~0ull : 0xffffffffull);
	case 2: case 3: return mk(s, r.below(em), r.next());
	case 4: return mk(s, r.below(em), 0);                                        // power of two
	case 5: { u64 v = mk(s, 1 + r.below(em - 1), 0); return v + r.below(5) - 2; }
	case 6: return mk(s, 0, r.next() >> r.below(64));                          // subnormal
	case 7: { u64 m = r.below(4) == 0 ? r.below(10) : r.below(100000); char b[64]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)m, int(r.below(dbl ? 600 : 70)) - (dbl ? 310 : 40)); return dbl ? dbits(strtod(b, nullptr)) : fbits(strtof(b, nullptr)); }
	case 8: { char b[64]; snprintf(b, sizeof b, "%llu.%llue%d", (unsigned long long)r.below(10), (unsigned long long)r.below(1000000), int(r.below(40)) - 20); u64 v = dbl ? dbits(strtod(b, nullptr)) : fbits(strtof(b, nullptr)); return v | (s << (mb + eb)); }
	case 9: { u64 v = r.below(1u << (1 + r.below(31))); return dbl ? dbits(double(v)) : fbits(float(v)); }
	case 10: { double v = double(r.below(u64(1) << 53)); return dbl ? dbits(v) : fbits(float(v)); }
	case 11: { // extremes
		static const int k[] = { 0, 1, 2, 3, 4, 5, 6, 7 };
		switch (k[r.below(8)]) { case 0: return mk(s, 0, 1); case 1: return mk(s, 0, mm); case 2: return mk(s, 1, 0); case 3: return mk(s, 1, r.below(4)); case 4: return mk(s, em - 1, mm); case 5: return mk(s, em - 1, mm - r.below(4)); case 6: return mk(s, em / 2, 0); default: return mk(s, 1 + r.below(3), r.next()); } }
	case 12: { // special values
		switch (r.below(7)) { case 0: return mk(0, 0, 0); case 1: return mk(1, 0, 0); case 2: return mk(0, em, 0); case 3: return mk(1, em, 0); case 4: return mk(s, em, (u64(1) << (mb - 1)) | r.next()); case 5: return mk(s, em, 1 + r.below((u64(1) << (mb - 1)) - 1)); default: return mk(s, 0, r.below(10)); } }
	case 13: { double v = double(1 + r.below(999)) * std::pow(10.0, double(r.below(31)) - 10); return dbl ? dbits(v) : fbits(float(v)); }
	case 14: { u64 v = r.next() & (r.next() | r.next()); return mk(s, r.below(em), v << (mb / 2)); }
	case 15: return mk(s, em / 2 + r.below(64), r.next());
	}
}
static u64 gen_special(Rng& r, bool dbl) {
	const int mb = dbl ? 52 : 23; const u64 inf = dbl ? 0x7ffull << 52 : 0xffull << 23, s = u64(r.below(2)) << (dbl ? 63 : 31);
	switch (r.below(4)) { case 0: return s | inf; case 1: return s | inf | (u64(1) << (mb - 1)); case 2: return s | inf | (u64(1) << (mb - 1)) | (r.next() & ((u64(1) << (mb - 1)) - 1)); default: return s | inf | (1 + r.below((u64(1) << (mb - 1)) - 1)); }
}
static bool finite_bits(u64 b, bool dbl) { return dbl ? ((b >> 52) & 0x7ff) != 0x7ff : ((b >> 23) & 0xff) != 0xff; }
static bool zero_bits(u64 b, bool dbl) { return dbl ? (b << 1) == 0 : (u32(b) << 1) == 0; }


struct Pool { vector<HotOp> v; u32 apimask, modemask, crsmask; u8 dblmask; };
static Pool gen_pool(Rng& r, int prop) {
	Pool p;
	// swarm: each run restricts the interface it exercises
	p.apimask = r.chance(400) ? (1u << NAPI) - 1 : u32(1 + r.below((1u << NAPI) - 1));
	if (prop == C05 || prop == C06) { p.apimask &= (1u << A_CHARS) | (1u << A_CHARS_N) | (1u << A_POLICY) | (1u << A_SEARCH); if (!p.apimask) p.apimask = 3; if (!r.below(2)) p.apimask &= 3; if (!p.apimask) p.apimask = 3; }
	if (prop == C13 || (prop >= C27 && r.chance(300))) { const u32 cb = (1u << A_HANDLER) | (1u << A_POLICY) | (1u << A_HANDLER_U) | (1u << A_POLICY_S) | (1u << A_SEARCH); p.apimask &= cb; if (!p.apimask) p.apimask = cb; }
	p.modemask = r.chance(350) ? (1u << NMODE) - 1 : r.chance(400) ? 1 : u32(1 + r.below((1u << NMODE) - 1));
	p.crsmask = r.chance(350) ? 0x1f : r.chance(500) ? 1 : u32(1 + r.below(0x1f));
	p.dblmask = u8(r.chance(400) ? 3 : 1 + r.below(2));
	u32 n = 1 + u32(r.below(4));
	auto pick = [&](u32 mask, u32 lim) { for (;;) { u32 x = u32(r.below(lim)); if (mask >> x & 1) return u8(x); } };
	const vector<u32>* grp = nullptr;   // calls that were seen storing to the same place meet
	if (!g_hot.empty() && r.chance(600)) { auto it = g_hotaddr.find(g_hot[r.below(g_hot.size())].addr); if (it != g_hotaddr.end() && it->first) { grp = &it->second; if (n < 2) n = 2; } }
	for (u32 i = 0; i < n; ++i) {
		HotOp h;
		if (grp && r.chance(800)) h = g_hot[(*grp)[r.below(grp->size())]];
		else if (!g_hot.empty() && r.chance(600)) h = g_hot[r.below(g_hot.size())];
		else if (!g_rare.empty() && r.chance(250)) { h = g_rare[r.below(g_rare.size())]; if (prop == C13 && r.chance(200)) h.bits = gen_special(r, h.dbl); }
		else { h.dbl = pick(p.dblmask, 2); h.api = pick(p.apimask, NAPI); h.mode = pick(p.modemask, NMODE); h.crs = pick(p.crsmask, NCRS); h.bits = prop == C13 && r.chance(350) ? gen_special(r, h.dbl) : gen_bits(r, h.dbl); }
		if (!(p.apimask >> h.api & 1)) h.api = pick(p.apimask, NAPI);
		p.v.push_back(h);
	}
	return p;
}
static HotOp gen_op(Rng& r, const Pool& p) {
	auto pick = [&](u32 mask, u32 lim) { for (;;) { u32 x = u32(r.below(lim)); if (mask >> x & 1) return u8(x); } };
	HotOp h = p.v[r.below(p.v.size())];
	u32 q = u32(r.below(10));
	if (q < 4) {}
	else if (q < 6) { h.mode = pick(p.modemask, NMODE); h.crs = pick(p.crsmask, NCRS); h.api = pick(p.apimask, NAPI); }
	else if (q < 9) { // a relative of a pooled value
		if (r.chance(300)) h.api = pick(p.apimask, NAPI);
		u64 sb = u64(1) << (h.dbl ? 63 : 31);
		switch (r.below(14)) {
		case 0: h.bits ^= sb; break;
		case 1: h.bits = (h.bits & ~sb) < 16 ? h.bits + 1 : h.bits - 1; break;
		case 2: h.bits += 1 + r.below(3); break;
		case 3: h.bits = h.dbl ? (h.bits & ~((u64(1) << 52) - 1)) | (r.next() >> 12) : (h.bits & ~u64((1 << 23) - 1)) | (r.next() >> 41); break;
		case 4: { h.bits = h.dbl ? (h.bits & ((u64(1) << 52) - 1)) | (r.next() << 52) : (h.bits & ((1 << 23) - 1)) | ((r.next() & 0x1ff) << 23); break; }
		case 5: if (h.dbl) { double v; memcpy(&v, &h.bits, 8); float f = float(v); h.dbl = 0; h.bits = fbits(f); } else { float f; u32 b = u32(h.bits); memcpy(&f, &b, 4); h.dbl = 1; h.bits = dbits(double(f)); } break;
		case 6: if (h.dbl) { h.bits = r.next() >> 63 << 63 | (h.bits & (~u64(0) >> 1)); } else h.bits &= 0x7fffffff; break;
		case 7: h.bits ^= u64(1) << r.below(h.dbl ? 52 : 23); break;
		// values that a truncated, folded or digit-based key would confuse
		case 8: { u32 w = h.dbl ? 4 + u32(r.below(56)) : 4 + u32(r.below(26)); u64 m = (u64(1) << w) - 1; if (r.below(2)) m = ~m; h.bits = (h.bits & m) | (r.next() & ~m); break; }
		case 9: if (h.dbl) h.bits = (h.bits & 0xffffffffull) | (r.next() << 32); else h.bits = (h.bits & 0xffff) | (r.next() << 16); break;
		case 10: { u64 m = r.below(2) ? u64(1) << r.below(32) : r.next() >> 32; if (h.dbl) h.bits ^= m | m << 32; else { m &= 0xffff; h.bits ^= m | m << 16; } break; }
		case 11: { double f = std::pow(10.0, double(r.below(41)) - 20); if (h.dbl) { double v; memcpy(&v, &h.bits, 8); v *= f; h.bits = dbits(v); } else { float v; u32 b = u32(h.bits); memcpy(&v, &b, 4); v = float(v * f); h.bits = fbits(v); } break; }
		case 12: { int n = 1 + int(r.below(3)); while (n--) h.bits ^= u64(1) << r.below(h.dbl ? 64 : 32); break; }
		case 13: { u64 m = r.below(1u << (1 + r.below(31))); if (h.dbl) h.bits += m - (m << 32); else { m &= 0xffff; h.bits += m - (m << 16); } break; }
		}
	}
	else { h.dbl = pick(p.dblmask, 2); h.bits = gen_bits(r, h.dbl); }
	if (!h.dbl) h.bits &= 0xffffffffull;
	if ((h.api == A_SIGNED || h.api == A_UNSIGNED) && (!finite_bits(h.bits, h.dbl))) h.api = r.below(2) ? A_CHARS : A_CLASS;
	if (has_cb(h.api) && !is_text(h.api) && zero_bits(h.bits, h.dbl)) h.api = A_CHARS_N;
	if (h.api == A_POLICY_S && !finite_bits(h.bits, h.dbl)) h.api = r.below(2) ? A_POLICY : A_HANDLER;
	if ((h.api == A_SIGNED || h.api == A_UNSIGNED) && zero_bits(h.bits, h.dbl)) h.api = A_CHARS;
	if (!(p.apimask >> h.api & 1) && h.api != A_CLASS) { if (p.apimask & 3) h.api = p.apimask & 1 ? A_CHARS : A_CHARS_N; }
	return h;
}

// ---- workload and fault plan -----------------------------------------------------------------------------------------
static const u32 kBudget = 40000;
static void random_env(Rng& r, PlanOp& p, bool unmask) {
	p.mxcsr = 0x1f80 | u32(r.below(4) << 13) | (r.chance(400) ? 0x8000 : 0) | (r.chance(400) ? 0x40 : 0) | u32(r.below(2) ? r.below(64) : 0);
	p.fcw = u16(0x7f | (r.below(4) << 8) | (r.below(4) << 10));
	if (unmask && r.chance(600)) { p.mxcsr &= ~u32(63); p.mxcsr &= ~u32(r.below(64) << 7); p.fcw &= u16(~r.below(64)); }
}
static void gen_run(int prop, u64 seed, RunIn& in) {
	memset(&in, 0, sizeof in);
	Rng r(seed);
	in.seed = r.next(); in.fill_seed = r.next(); in.online = 1; in.engine = sut_engine;
	const bool e2 = sut_engine == 2;
	in.budget = kBudget; in.stack_bytes = STACK_SZ - PG - 256;
	in.maxitems = 200 + u32(r.below(1200));
	in.style = u32(r.below(4)); in.meanlen = 1u << r.below(8); in.p_hot = r.chance(700) ? u32(r.below(1000)) : 0; 
	if (r.chance(250)) in.p_runop = 100 + u32(r.below(600)); else if (in.style == 1) in.p_runop = 500;
	Pool pool = gen_pool(r, prop);
	in.nthreads = 1 + u32(r.below(MAXT));
	u32 maxops = e2 ? 3 : 5;
	u32 nnest = 0;
	auto prob = [&](u32 lo, u32 hi) { u32 v = lo; u32 k = u32(r.below(6)); v <<= k; return v > hi ? hi : v; };
	auto pattern = [&]() { static const u8 pat[] = { 2, 4, 8, 254, 252, 253 }; return r.chance(150) ? u32(2 + r.below(254)) : u32(pat[r.below(6)]); };
	in.heaplock = prop == C02 || prop == C03 || prop == C04;
	switch (prop) {
	case C01: if (in.nthreads < 2) in.nthreads = 2; break;
	case C02: in.p[K_NEST] = prob(10, 300); nnest = 1 + u32(r.below(8)); if (r.chance(500)) in.nthreads = 1; break;
	case C03: if (r.chance(700)) in.p[K_KILL] = prob(5, 100); if (r.chance(400)) in.p[K_VANISH] = prob(3, 60); if (r.chance(300)) in.p[K_FORK] = prob(3, 60); if (!in.p[K_KILL] && !in.p[K_VANISH] && !in.p[K_FORK]) in.p[K_KILL] = 30; if (r.chance(250)) { in.p[K_NEST] = 30; nnest = 3; } break;
	case C04: if (in.nthreads < 2) in.nthreads = 2; in.p[K_STALL] = prob(8, 200); if (r.chance(200)) { in.p[K_NEST] = 20; nnest = 2; } break;
	case C05: in.contain = 1; if (r.chance(700)) in.p[K_NEIGH] = prob(10, 300); if (r.chance(200)) { in.p[K_NEST] = 20; nnest = 3; } if (r.chance(150)) in.p[K_KILL] = 10; break;
	case C06: in.p[K_TAMPER] = r.chance(600) ? prob(10, 300) : 0; in.contain = r.chance(500); break;
	case C07: in.p[K_ENV] = prob(10, 400); break;
	case C08: in.check_env = 1; if (r.chance(400)) in.p[K_ENV] = prob(5, 100); if (r.chance(200)) { in.p[K_NEST] = 20; nnest = 2; } break;
	case C09: in.afail0 = r.chance(600) ? 1 : r.chance(500) ? pattern() : 0; if (!in.afail0 || r.chance(400)) in.p[K_AFAIL] = prob(10, 200); in.stack_bytes = r.chance(700) ? 8192 : STACK_SZ - PG - 256; break;
	case C10: in.lateinit = 1; maxops = 3; break;
	case C11: in.p[K_LOC] = r.chance(600) ? prob(10, 200) : 0; in.p[K_CLOCK] = r.chance(500) ? prob(10, 200) : 0; in.clock_random = r.chance(700); break;
	case C12: in.nthreads = r.chance(500) ? 1 : 2; in.p_runop = 850; maxops = e2 ? 12 : 18; if (r.chance(300)) in.p_runop = 1000; break;
	case C13: if (in.nthreads > 1 && r.chance(400)) in.p[K_MIGRATE] = prob(20, 400); break;
	case C29: if (r.chance(300)) in.p[K_KILL] = prob(5, 100); if (r.chance(200)) in.p[K_VANISH] = prob(3, 60); [[fallthrough]];
	case C27: in.passes = 10; in.newthreads = r.chance(400); maxops = 3; if (r.chance(500)) { in.p[K_NEST] = prob(10, 300); nnest = 1 + u32(r.below(4)); } if (r.chance(400)) { in.afail0 = r.chance(150) ? 1 : r.chance(500) ? pattern() : 0; if (!in.afail0 || r.chance(300)) in.p[K_AFAIL] = prob(10, 200); } if (r.chance(200)) in.p[K_STALL] = prob(5, 60); if (r.chance(200)) in.p[K_LOC] = prob(5, 60); if (r.chance(200)) { in.p[K_CLOCK] = 20; in.clock_random = 1; } break;
	case C28: in.effects = 1; if (r.chance(400)) { in.p[K_NEST] = prob(10, 200); nnest = 1 + u32(r.below(4)); } if (r.chance(400)) { in.afail0 = r.chance(300) ? 1 : r.chance(300) ? pattern() : 0; if (!in.afail0 || r.chance(400)) in.p[K_AFAIL] = prob(10, 200); } if (r.chance(300)) in.p[K_LOC] = prob(10, 200); if (r.chance(300)) { in.p[K_CLOCK] = prob(10, 200); in.clock_random = 1; } if (r.chance(200)) in.p[K_KILL] = prob(5, 100); if (r.chance(200)) in.p[K_STALL] = prob(5, 60); if (r.chance(200)) in.p[K_ENV] = prob(5, 60); if (r.chance(200)) in.stack_bytes = 8192; break;
	case C26: in.p_runop = 700; in.stack_shift = u32(r.below(1024)) * 16; if (r.chance(500)) in.nthreads = 1; break;
	}
	// who the callers are: neighbours, arbitrary threads, or threads whose numbers agree in their low bits
	for (u32 t = 0; t < MAXT; ++t) { in.tsel[t] = u8(t); in.ssel[t] = u8(t); in.tid[t] = 1000 + t; }
	if (r.chance(500)) { u32 v = u32(r.below(3)); for (u32 t = 0; t < MAXT; ++t) for (bool again = true; again;) { in.tsel[t] = u8(v ? r.below(NPARK) : r.below(8)); again = false; for (u32 q = 0; q < t; ++q) again |= in.tsel[q] == in.tsel[t]; } }
	if (r.chance(400)) for (u32 t = 0; t < MAXT; ++t) for (bool again = true; again;) { in.ssel[t] = u8(r.below(NSTK)); again = false; for (u32 q = 0; q < t; ++q) again |= in.ssel[q] == in.ssel[t]; }
	if (r.chance(500)) { u32 sh = u32(r.below(17)); u32 lo = u32(r.below(u64(1) << sh)); for (u32 t = 0; t < MAXT; ++t) for (bool again = true; again;) { in.tid[t] = lo | u32((1 + r.below((1u << 22) >> sh)) << sh); again = false; for (u32 q = 0; q < t; ++q) again |= in.tid[q] == in.tid[t]; } }
	in.pid = r.chance(500) ? in.tid[r.below(MAXT)] : 1000;
	{ u64 x = r.next(); if (e2 && r.chance(600)) in.tso = x | 1; }
	u32 nd = 0; const bool placed = prop != C05 && prop != C06 && !in.contain && r.chance(prop == C26 ? 800 : 300), thrown = prop != C08 && r.chance(prop == C13 ? 500 : 120);
	auto add = [&](HotOp h) {
		PlanOp& p = in.op[nd]; p = PlanOp{}; p.api = h.api; p.dbl = h.dbl; p.mode = h.mode; p.crs = h.crs; p.bits = h.bits; p.mxcsr = 0x1f80; p.fcw = 0x37f; p.reidx = 0xff;
		if (prop == C07) random_env(r, p, false);
		if (prop == C08) { random_env(r, p, true); p.err0 = int(r.below(134)); if (r.chance(300)) p.x87dirty = u8(1 + r.below(7)); }
		if (r.chance(prop == C05 || prop == C26 ? 400 : prop == C06 || prop == C09 ? 200 : 30)) p.layout = u8(1 + r.below(2));
		if (placed && !p.layout && r.chance(prop == C26 ? 700 : 500)) p.place = u8(r.chance(500) ? P_STACK : 1 + r.below(NPLACE - 1));
		if (thrown && r.chance(400)) p.exc = 1 + u32(r.below(2));
		return nd++;
	};
	u32 per[MAXT];
	for (u32 t = 0; t < in.nthreads; ++t) { per[t] = 1 + u32(r.below(maxops)); if (prop == C12 && in.nthreads == 1) per[t] += 16; }
	if (prop == C10) {   // thread 0 is the one that runs start-up and shutdown
		u32 a = u32(r.below(3)), b = u32(r.below(3)), c = 1 + u32(r.below(2)); u32 qn = 0;
		auto spec = [&](u8 api, u64 n = 0) { PlanOp& p = in.op[nd]; p = PlanOp{}; p.api = api; p.bits = n; p.mxcsr = 0x1f80; p.fcw = 0x37f; p.reidx = 0xff; return nd++; };
		for (u32 i = 0; i < a; ++i) in.q[0][qn++] = u8(add(gen_op(r, pool)));
		// each of them whole, or in parts with calls in between
		auto step = [&](u8 api, u32 t, u32& q) { if (r.chance(300)) { in.q[t][q++] = u8(spec(api, 1 + r.below(2))); if (r.chance(700)) in.q[t][q++] = u8(add(gen_op(r, pool))); } };
		step(A_INIT, 0, qn); in.q[0][qn++] = u8(spec(A_INIT));
		for (u32 i = 0; i < b; ++i) in.q[0][qn++] = u8(add(gen_op(r, pool)));
		if (r.chance(500)) { step(A_TEXIT, 0, qn); in.q[0][qn++] = u8(spec(A_TEXIT)); if (r.chance(500)) in.q[0][qn++] = u8(add(gen_op(r, pool))); }
		step(A_FINI, 0, qn); in.q[0][qn++] = u8(spec(A_FINI));
		for (u32 i = 0; i < c; ++i) in.q[0][qn++] = u8(add(gen_op(r, pool)));
		in.qn[0] = u8(qn);
		if (r.chance(500)) in.nthreads = 1;
		for (u32 t = 1; t < in.nthreads; ++t) {
			u32 x = r.chance(600) ? u32(r.below(per[t] + 1)) : 99, q = 0;   // somewhere the thread exits; what is left runs in its own exit handlers
			for (u32 i = 0; i < per[t]; ++i) { if (i == x) { step(A_TEXIT, t, q); in.q[t][q++] = u8(spec(A_TEXIT)); } in.q[t][q++] = u8(add(gen_op(r, pool))); }
			if (r.chance(300)) { step(A_TEXIT, t, q); step(A_TEXIT, t, q); in.q[t][q++] = u8(spec(A_TEXIT)); }
			in.qn[t] = u8(q);
		}
	}
	else for (u32 t = 0; t < in.nthreads; ++t) {
		for (u32 i = 0; i < per[t] && nd < MAXD - 10; ++i) { in.q[t][in.qn[t]++] = u8(add(gen_op(r, pool))); }
	}
	for (u32 i = 0; i < nnest && nd < MAXD - 6; ++i) { u32 d = add(gen_op(r, pool)); in.nestq[in.nnest++] = u8(d); }
	if (in.newthreads) for (u32 t = 0; t < in.nthreads; ++t) { PlanOp& p = in.op[nd]; p = PlanOp{}; p.api = A_TEXIT; p.mxcsr = 0x1f80; p.fcw = 0x37f; p.reidx = 0xff; in.q[t][in.qn[t]++] = u8(nd++); }
	// some callers are new threads that take the place (and the number) of one that has ended or vanished
	if ((prop == C01 || prop == C03 || prop == C04 || prop == C12 || prop == C26) && in.nthreads > 1 && r.chance(prop == C03 || prop == C12 ? 350 : 150)) {
		u32 u = 1 + u32(r.below(in.nthreads - 1)), t = u32(r.below(u)); in.succ[u] = u8(t + 1); if (r.chance(500)) in.ssel[u] = in.ssel[t];
		if (u + 1 < in.nthreads && r.chance(300)) { in.succ[u + 1] = u8(u + 1); if (r.chance(500)) in.ssel[u + 1] = in.ssel[u]; }
		for (u32 x : { t, u }) if (r.chance(800) && in.qn[x] < MAXD - 1) { PlanOp& p = in.op[nd]; p = PlanOp{}; p.api = A_TEXIT; p.mxcsr = 0x1f80; p.fcw = 0x37f; p.reidx = 0xff; in.q[x][in.qn[x]++] = u8(nd++); }
	}
	u32 ntop = nd;
	if (prop == C05) in.unmap_done = u32(r.below(2));
	if (prop == C11) in.init_locale = u32(r.below(2));
	if (prop <= C04 || prop == C10 || prop == C12 || prop == C13 || prop >= C27) {
		in.unmap_done = prop < C27 && r.chance(300);
		if (r.chance(e2 ? 150 : 200)) {   // long histories: some calls are made again and again
			u32 top = e2 ? 12 : r.chance(700) || prop == C27 || prop == C29 ? 40 : 600;
			for (u32 d = 0; d < nd; ++d) if (in.op[d].api < A_INIT && r.chance(d >= nd - in.nnest ? 500 : 250)) in.op[d].reps = 1 + u32(r.below(top));
			in.maxitems += e2 ? 0 : u32(r.below(4000));
			if (in.p_runop < 300) in.p_runop = 300;
			if (in.p[K_KILL] && r.chance(500)) in.p[K_KILL] = 150;
		}
	}
	if (prop == C13 || prop >= C27 || (prop == C03 && r.chance(200))) for (u32 d = 0; d < ntop; ++d) if (has_cb(in.op[d].api)) {
		u8 b = u8(r.below(NBEH)); if (prop == C03 && b != B_NONE) b = r.below(2) ? B_ABANDON : B_THROW; if (prop == C27 && b == B_ABANDON) b = B_THROW;
		in.op[d].beh = b;
		if (b == B_REENTER) { if (nd < MAXD - 1) { HotOp h = gen_op(r, pool); in.op[d].reidx = u8(nd); u32 x = add(h); if (has_cb(in.op[x].api)) in.op[x].beh = u8(r.chance(400) ? B_THROW : B_NONE); } else in.op[d].beh = B_YIELD; }
	}
	// a handler that returns for a non-finite input leaves the algorithm outside its domain: use the guarded policy then
	if (in.maxitems > MAXI - 10) in.maxitems = MAXI - 10;
	for (u32 d = 0; d < nd; ++d) if (in.op[d].api == A_HANDLER && !finite_bits(in.op[d].bits, in.op[d].dbl) && in.op[d].beh != B_THROW && in.op[d].beh != B_ABANDON) in.op[d].api = A_HANDLER_U;
	in.ndesc = nd;
}
// assign destinations once the lengths are known
static void layout(RunIn& in, u64 seed, int prop) {
	Rng r(seed ^ 0x1a2b3c);
	u32 ord[MAXD]; for (u32 i = 0; i < in.ndesc; ++i) ord[i] = i;
	for (u32 i = in.ndesc; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
	u32 at = u32(r.below(8));
	u32 style = u32(r.below(4));
	if (prop == C26) { at = u32(r.below(64)); if (r.chance(300)) at = u32(1 + r.below(3)) * PG - u32(r.below(100)); }
	for (u32 k = 0; k < in.ndesc; ++k) {
		PlanOp& p = in.op[ord[k]];
		p.slot = at;
		u32 len = p.len + p.nul;
		u32 gap = style == 0 ? 0 : style == 1 ? u32(r.below(4)) : style == 2 ? u32(r.below(40)) : u32(8);
		if (prop != C05 && prop != C01 && prop != C06 && gap == 0) gap = u32(r.below(8));
		at += len + gap;
	}
	at += u32(r.below(40));
	in.arena_used = (at + 7) & ~7u; if (in.arena_used > ARENA_SZ) die("arena", 0);
}
static bool prepare(RunIn& in, u64 seed, int prop, u32* excluded) {   // reference results -> expected lengths; calls that fail alone are dropped
	run_refs(in);
	for (u32 d = 0; d < in.ndesc; ++d) {
		PlanOp& p = in.op[d]; const Ref& f = g_ref[d];
		bool text = is_text(p.api);
		p.len = 0; p.nul = 0; p.refsteps = 0;
		if (p.api >= A_INIT) { p.refsteps = 60; continue; }
		if (!f.crash && text && f.r.endoff >= 0) { p.len = u16(f.r.endoff); p.nul = p.api == A_CHARS; }
		if (text && f.r.endoff < 0 && f.r.threw) { p.len = 24; p.nul = 0; }   // a throwing policy may leave any of its own bytes behind
		p.refsteps = sut_engine == 1 ? u32(f.r.steps) : 350;
		if (p.beh == B_THROW && text) p.len = 24;
	}
	auto bad = [&](u32 d) { const PlanOp& p = in.op[d]; if (p.api >= A_INIT) return false; const Ref& f = g_ref[d]; return (f.crash && !(prop == C28 && f.r.effect) && !(prop == C13 && p.beh == B_THROW) && !(p.beh == B_ABANDON && p.api == A_HANDLER && !finite_bits(p.bits, p.dbl))) || p.len > 40 || (p.reidx != 0xff && g_ref[p.reidx].crash); };
	u32 left = 0;
	for (u32 t = 0; t < in.nthreads; ++t) { u32 n = 0; for (u32 i = 0; i < in.qn[t]; ++i) if (!bad(in.q[t][i])) in.q[t][n++] = in.q[t][i]; else ++*excluded; in.qn[t] = u8(n); left += n; }
	{ u32 n = 0; for (u32 i = 0; i < in.nnest; ++i) if (!bad(in.nestq[i])) in.nestq[n++] = in.nestq[i]; in.nnest = u8(n); }
	layout(in, seed, prop);
	Rng r(seed ^ 0x9e1f);
	if (r.chance(prop == C06 ? 600 : 250)) for (u32 d = 0; d < in.ndesc; ++d) if (is_text(in.op[d].api) && r.chance(700)) {   // the destination holds a result, exact or damaged
		u32 e = r.chance(500) ? d : u32(r.below(in.ndesc)); const Ref& f = g_ref[e]; if (f.crash || f.r.endoff <= 0) continue;
		u8* p = in.pre[d]; u32 n = u32(f.r.endoff); if (n > 31) n = 31; memcpy(p, f.r.text, n);
		for (u32 q = n + 1; q < 32; ++q) p[q] = r.chance(300) ? 0 : u8(kAlpha[r.below(32)]);
		switch (r.below(5)) { case 0: p[r.below(n)] = u8(kAlpha[r.below(32)]); break; case 1: memmove(p, p + 1, 31); break; case 2: memmove(p + 1, p, 31); p[0] = u8(kAlpha[r.below(31)]); break; case 3: for (u32 q = 0; q < 3; ++q) p[r.below(n)] = u8(kAlpha[r.below(32)]); break; default: break; }
	}
	return left > 0;
}

// ---- judging a history -------------------------------------------------------------------------------------------------
struct Viol { string cls, text; int d = -1; explicit operator bool() const { return !cls.empty(); } };
static string hex(u64 v, int w) { char b[32]; snprintf(b, sizeof b, "0x%0*llx", w, (unsigned long long)v); return b; }
static string op_text(const RunIn& in, u32 d) {
	if (d >= in.ndesc) return "?";
	const PlanOp& p = in.op[d]; if (p.api >= A_INIT) return api_name(p.api);
	string s = string(api_name(p.api)) + "(" + (p.dbl ? "double " : "float ") + hex(p.bits, p.dbl ? 16 : 8);
	double v; if (p.dbl) memcpy(&v, &p.bits, 8); else { float f; u32 b = u32(p.bits); memcpy(&f, &b, 4); v = f; }
	char b[64]; snprintf(b, sizeof b, "=%.17g", v); s += b;
	if (p.api != A_CLASS) s += string(", ") + mode_name[p.mode] + ", " + crs_name[p.crs];
	static const char* const where[NPLACE] = { "", "the caller's own stack", "another thread's stack", "static data", "thread-local storage", "the heap" };
	s += ")"; if (p.place) s += string(" [to ") + where[p.place] + "]"; if (p.exc) s += p.exc == 1 ? " [from a destructor, while an exception of the caller's travels up]" : " [while the caller handles an exception]"; if (p.beh) s += string(" [callback: ") + beh_name[p.beh] + "]"; if (p.reps) { snprintf(b, sizeof b, " [made %u times]", p.reps + 1); s += b; }
	return s;
}
static string res_text(const OpRes& r, const PlanOp& p) {
	char b[256];
	if (r.threw) { snprintf(b, sizeof b, "exception(%s) after %llu callback(s)", r.threw == 1 ? "the callback's" : "foreign", (unsigned long long)r.hcalls); return b; }
	if (r.endoff >= 0) { string t; for (int i = 0; i < 47 && i < r.endoff && i < int(p.len ? p.len : 47); ++i) { u8 c = r.text[i]; if (c >= 32 && c < 127) t += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); t += b; } } snprintf(b, sizeof b, " end=+%lld", (long long)r.endoff); string e = b; if (p.api == A_CHARS && r.endoff < 47) { snprintf(b, sizeof b, " terminator=%02x", r.text[r.endoff]); e += b; } if (r.hcalls) { snprintf(b, sizeof b, " callbacks=%llu", (unsigned long long)r.hcalls); e += b; } return "\"" + t + "\"" + e; }
	snprintf(b, sizeof b, "significand=%llu exponent=%lld sign/bits=%llx class=%llx callbacks=%llu", (unsigned long long)r.sig, (long long)r.exp, (unsigned long long)r.neg, (unsigned long long)r.cls, (unsigned long long)r.hcalls); return b;
}
static u64 g_compared;
static string effect_text(u32 e) {
	static const char* const n[] = { "", "used the application's random number generator", "changed the environment variables", "changed the process-wide locale", "changed the terminate or new handler", "changed the state of the standard streams",
		"wrote to or flushed stdout", "left the signal mask changed", "used the hidden state of strtok", "changed the locale of the thread", "changed whether the thread can be cancelled", "used a function of the C library whose result or state is shared by the whole process" };
	if (e < E_SYSCALL) return n[e < 11 ? e : 0];
	char b[80]; const char* w = e - E_SYSCALL == SYS_write || e - E_SYSCALL == SYS_writev ? "wrote to a file or terminal" : e - E_SYSCALL == SYS_rt_sigaction ? "installed a signal handler" : e - E_SYSCALL == SYS_clone || e - E_SYSCALL == SYS_clone3 ? "started a thread or process" : e - E_SYSCALL == SYS_openat ? "opened a file for writing" : "acted on the process or the system";
	snprintf(b, sizeof b, "%s (system call %u)", w, e - E_SYSCALL); return b;
}
static const char* const use_name[NUSE] = { "allocated blocks", "allocated bytes", "mapped memory", "open files", "exit handlers", "thread-exit handlers", "thread-specific data keys" };
template <class T> static string growth(const T* use, u32 n) {   // does something in use grow every time?
	char b[200];
	for (u32 q = 0; q < NRES; ++q) { bool g = n > 4; for (u32 i = 2; i < n; ++i) g &= use[i][q] > use[i - 1][q]; if (g) { snprintf(b, sizeof b, "%s grow every time the same calls are made: %lld, %lld, ... %lld after %u times", use_name[q], (long long)use[1][q], (long long)use[2][q], (long long)use[n - 1][q], n); return b; } }
	return "";
}
template <class T> static string costs(const T* use, u32 n, i64 alone = 0) {   // do calls take more and more steps? (means of up to six stretches; the first time does not count)
	char b[200]; if (n < 5) return "";
	// by a lot, and for good?
	{ i64 base = use[0][U_TOTAL]; for (u32 i = 1; i < (alone ? 5u : 3u); ++i) if (alone ? use[i][U_TOTAL] > base : use[i][U_TOTAL] < base) base = use[i][U_TOTAL];
	  if (base < alone) base = alone;
	  vector<i64> last; for (u32 i = n - 1 - (n - 1) / 6; i < n; ++i) last.push_back(use[i][U_TOTAL]); std::sort(last.begin(), last.end());
	  if (base > 0 && last[last.size() / 2] > 8 * base) { snprintf(b, sizeof b, "take more and more steps every time they are made: %lld, later %lld", (long long)base, (long long)last[last.size() / 2]); return b; } }
	const u32 m = n - 1, nb = m < 6 ? m : 6; double v[6];
	for (u32 x = 0; x < nb; ++x) { u32 lo = 1 + x * m / nb, hi = 1 + (x + 1) * m / nb; double s = 0; for (u32 i = lo; i < hi; ++i) s += double(use[i][U_TOTAL]); v[x] = s / (hi - lo); if (x && v[x] <= v[x - 1]) return ""; }
	if (v[nb - 1] < (n < 12 ? 1.02 : 1.2) * v[0]) return "";
	snprintf(b, sizeof b, "take more and more steps every time they are made: %.0f, %.0f, ... %.0f after %u times", v[0], v[1], v[nb - 1], n); return b;
}
static Viol judge(int prop, const RunIn& in, const RunOut& o) {
	Viol v; char b[512];
	if (in.effects) for (u32 d = 0; d < in.ndesc; ++d) if (o.r[d].effect && in.op[d].api < A_INIT) { v.cls = "side-effect"; v.d = int(d); v.text = op_text(in, d) + ": " + effect_text(o.r[d].effect); return v; }
	switch (o.status) {
	case S_CRASH: v.cls = "crash"; v.d = int(o.crash_d); snprintf(b, sizeof b, "caller %u died with signal %u (address %llx) inside %s", o.crash_t, o.crash_sig, (unsigned long long)o.crash_addr, op_text(in, o.crash_d).c_str()); v.text = b; return v;
	case S_HANG: v.cls = "hang"; v.text = "the call did not return"; return v;
	case S_BUDGET: v.cls = "no-progress"; v.d = int(o.budget_d); snprintf(b, sizeof b, "caller %u used %u own steps without finishing %s (alone: %u)", o.budget_t, in.budget, op_text(in, o.budget_d).c_str(), in.op[o.budget_d].refsteps); v.text = b; return v;
	case S_CONTAIN: v.cls = "containment"; v.d = int(o.viol_d);
		snprintf(b, sizeof b, "%s wrote outside its own result [slot %u, +%u): %s %u%s", op_text(in, o.viol_d).c_str(), o.viol_d < in.ndesc ? in.op[o.viol_d].slot : 0, o.viol_d < in.ndesc ? in.op[o.viol_d].len + in.op[o.viol_d].nul : 0, o.viol_off >= 0x100000 ? "guard-page offset" : "arena offset", o.viol_off & 0xfffff, "");
		v.text = b; return v;
	case S_OK: break;
	default: v.cls = "internal"; v.text = "simulator status"; return v;
	}
	if (in.passes) {
		for (u32 d = 0; d < in.ndesc; ++d) if (prop == C27 && o.r[d].done && o.r[d].lives) { snprintf(b, sizeof b, "%lld cop%s of the caller's callback objects destroyed", (long long)(o.r[d].lives < 0 ? -o.r[d].lives : o.r[d].lives), o.r[d].lives < 0 ? "ies too many" : "ies not"); v.cls = "left-behind"; v.d = int(d); v.text = op_text(in, d) + ": " + b; return v; }
		i64 alone = 500; for (u32 q = 0; q < in.ndesc; ++q) alone += in.op[q].refsteps;
		string g = prop == C29 ? costs(o.use, o.npass, alone) : growth(o.use, o.npass); if (!g.empty()) { v.cls = "left-behind"; v.text = prop == C29 ? "the same calls " + g : g; return v; }
	}
	for (u32 d = 0; d < in.ndesc; ++d) {
		const OpRes& r = o.r[d]; const PlanOp& p = in.op[d];
		if (!r.started || !r.done) continue;
		++g_compared;
		auto fail = [&](const char* c, string t) { v.cls = c; v.d = int(d); v.text = op_text(in, d) + ": " + t; return v; };
		if (in.check_env) {
			if (r.envbad) { snprintf(b, sizeof b, "left the FP environment changed: mxcsr %04x (entered with %04x) x87 control %04x (entered with %04x) status %04x tags %02x direction flag %d", r.mxcsr, p.mxcsr, r.fcw, p.fcw, r.fsw, r.ftw, r.envbad >> 3 & 1); return fail("fp-env", b); }
			if (r.errbad) { snprintf(b, sizeof b, "left errno = %d (entered with %d)", r.err, p.err0); return fail("errno", b); }
			if (r.locbad) return fail("locale", "left the process locale changed");
		}
		if (p.api >= A_INIT) continue;
		const OpRes& f = g_ref[d].r;
		if (prop == C13 && has_cb(p.api)) {
			bool fin = finite_bits(p.bits, p.dbl), z = zero_bits(p.bits, p.dbl);
			u64 lo, hi; if (is_policy(p.api)) lo = hi = fin && !z; else { lo = !fin; hi = 1; }
			if (r.hcalls < lo || r.hcalls > hi) { snprintf(b, sizeof b, "callback ran %llu times, expected %llu", (unsigned long long)r.hcalls, (unsigned long long)hi); return fail("callback-count", b); }
			if (r.hcalls && r.hbits != p.bits) { snprintf(b, sizeof b, "callback was shown bits %llx", (unsigned long long)r.hbits); return fail("callback-bits", b); }
			if (p.beh == B_THROW && r.hcalls && r.threw != 1) { return fail("callback-exception", "the callback's exception did not reach the caller unchanged"); }
		}
		bool ok = r.sig == f.sig && r.exp == f.exp && r.neg == f.neg && r.cls == f.cls && r.threw == f.threw && r.hcalls == f.hcalls && r.hbits == f.hbits && r.endoff == f.endoff;
		if (ok && !r.tampered && r.endoff >= 0) ok = memcmp(r.text, f.text, size_t(p.len + p.nul)) == 0;
		if (ok && r.repdiff) { snprintf(b, sizeof b, "execution %u of this call in the run returned something else than the ones before", r.repdiff); return fail("result", b); }
		if (!ok) return fail("result", "returned " + res_text(r, p) + ", alone it returns " + res_text(f, p));
	}
	return v;
}

// ---- minimisation ------------------------------------------------------------------------------------------------------------
struct Failing { RunIn in; vector<Item> items; Viol v; u64 hash; };
static bool try_case(int prop, RunIn in, const vector<Item>& items, const string& cls, Viol* out, u64* hash) {
	in.online = 0; in.nitems_in = u32(items.size());
	if (!items.empty()) memcpy(SH->items, items.data(), items.size() * sizeof(Item));
	RunOut& o = run_sim(in);
	Viol v = judge(prop, in, o);
	if (v && v.cls == cls) { if (out) *out = v; if (hash) *hash = o.hash; return true; }
	return false;
}
static void minimise(int prop, Failing& f, u32 maxtries, double maxsecs) {
	timespec a; clock_gettime(CLOCK_MONOTONIC, &a); u32 tries = 0;
	auto more = [&] { timespec b; clock_gettime(CLOCK_MONOTONIC, &b); return tries < maxtries && (b.tv_sec - a.tv_sec) < maxsecs; };
	auto T = [&](const RunIn& in, const vector<Item>& it) { ++tries; return try_case(prop, in, it, f.v.cls, nullptr, nullptr); };
	bool progress = true;
	while (progress && more()) {
		progress = false;
		for (u32 t = 0; t < f.in.nthreads; ++t) for (int i = f.in.qn[t] - 1; i >= 0 && more(); --i) {   // drop whole calls
			RunIn in = f.in; for (int j = i; j + 1 < in.qn[t]; ++j) in.q[t][j] = in.q[t][j + 1]; --in.qn[t];
			if (T(in, f.items)) { f.in = in; progress = true; }
		}
		for (size_t ch = std::max<size_t>(f.items.size() / 2, 1); more();) {   // ddmin over the trace
			bool any = false;
			for (size_t i = 0; i < f.items.size() && more();) {
				vector<Item> c = f.items; size_t e = std::min(i + ch, c.size()); c.erase(c.begin() + i, c.begin() + e);
				if (T(f.in, c)) { f.items = c; any = progress = true; } else i += ch;
			}
			if (!any) { if (ch == 1) break; ch = (ch + 1) / 2; if (ch < 1) ch = 1; }
		}
		for (size_t i = 0; i + 1 < f.items.size() && more();) {   // merge neighbouring slices of one caller
			Item& x = f.items[i], & y = f.items[i + 1];
			if (x.kind == K_RUN && y.kind == K_RUN && x.t == y.t) { vector<Item> c = f.items; c[i].n += y.n; c.erase(c.begin() + i + 1); if (T(f.in, c)) { f.items = c; progress = true; continue; } }
			++i;
		}
		for (size_t i = 0; i < f.items.size() && more(); ++i) if (f.items[i].kind == K_RUN) for (u64 n : { u64(1), f.items[i].n / 2, f.items[i].n - 1 }) if (n && n < f.items[i].n) {
			vector<Item> c = f.items; c[i].n = n; if (T(f.in, c)) { f.items = c; progress = true; break; }
		}
		for (size_t i = 0; i < f.items.size() && more(); ++i) if (f.items[i].kind == K_RUNOP && f.items[i].a) for (u32 n : { 0u, u32(f.items[i].a / 2), u32(f.items[i].a - 1) }) {
			vector<Item> c = f.items; c[i].a = u16(n); if (T(f.in, c)) { f.items = c; progress = true; break; }
		}
		for (u32 d = 0; d < f.in.ndesc && more(); ++d) if (f.in.op[d].reps) for (u32 v : { 0u, f.in.op[d].reps / 2, f.in.op[d].reps - 1 }) { RunIn in = f.in; in.op[d].reps = v; if (T(in, f.items)) { f.in = in; progress = true; break; } }
		for (u32 t = 0; t < f.in.nthreads && more(); ++t) if (f.in.succ[t]) { RunIn in = f.in; in.succ[t] = 0; if (T(in, f.items)) f.in = in; }
		if (f.in.tso && more()) { RunIn in = f.in; in.tso = 0; if (T(in, f.items)) f.in = in; }
		for (u32 d = 0; d < f.in.ndesc && more(); ++d) {   // simpler environments
			PlanOp p = f.in.op[d]; RunIn in = f.in; PlanOp& q = in.op[d];
			q.mxcsr = 0x1f80; q.fcw = 0x37f; q.x87dirty = 0; q.err0 = 0;
			if (memcmp(&p, &q, sizeof p) && T(in, f.items)) { f.in = in; }
		}
	}
	if (!try_case(prop, f.in, f.items, f.v.cls, &f.v, &f.hash)) die("minimised case does not fail", 0);
}
static string item_text(const Item& it) {
	char b[160];
	switch (it.kind) {
	case K_RUN: snprintf(b, sizeof b, "caller %u runs %llu steps", it.t, (unsigned long long)it.n); break;
	case K_RUNOP: snprintf(b, sizeof b, "caller %u runs its call undisturbed (at most %llu steps)%s", it.t, (unsigned long long)it.n, it.a ? " and repeats it" : ""); break;
	case K_NEST: snprintf(b, sizeof b, "signal on caller %u: the handler makes call #%u", it.t, it.a); break;
	case K_ENV: snprintf(b, sizeof b, "FP environment of caller %u becomes mxcsr=%04llx x87cw=%04x", it.t, (unsigned long long)it.n, it.a); break;
	default: snprintf(b, sizeof b, "%s caller %u (%u, %llu)", kind_name[it.kind], it.t, it.a, (unsigned long long)it.n);
	}
	return b;
}
static void hexdump(FILE* f, const char* tag, const void* p, size_t n) { fprintf(f, "%s ", tag); for (size_t i = 0; i < n; ++i) fprintf(f, "%02x", ((const u8*)p)[i]); fprintf(f, "\n"); }
static void write_replay(const string& path, int prop, const Failing& f, u64 runseed, u64 k) {
	FILE* o = fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); exit(2); }
	fprintf(o, "# property C%02d  variant %s  run %llu  seed 0x%llx\n# violation (%s): %s\n", prop, sut_variant, (unsigned long long)k, (unsigned long long)runseed, f.v.cls.c_str(), f.v.text.c_str());
	for (u32 t = 0; t < f.in.nthreads; ++t) for (u32 i = 0; i < f.in.qn[t]; ++i) fprintf(o, "# caller %u: call #%u %s\n", t, f.in.q[t][i], op_text(f.in, f.in.q[t][i]).c_str());
	for (u32 i = 0; i < f.in.nnest; ++i) fprintf(o, "# signal handler call #%u %s\n", f.in.nestq[i], op_text(f.in, f.in.nestq[i]).c_str());
	for (auto& it : f.items) fprintf(o, "#   %s\n", item_text(it).c_str());
	for (u32 t = 0; t < f.in.nthreads; ++t) if (f.in.succ[t]) fprintf(o, "#   (caller %u is a new thread in the place of caller %u)\n", t, f.in.succ[t] - 1);
	if (f.in.tso) fprintf(o, "#   (stores to static data are delayed in store buffers)\n");
	if (f.in.heaplock) fprintf(o, "#   (malloc and free hold a lock while they run; waiting for it counts 200 steps a time)\n");
	fprintf(o, "#   (then every remaining call runs to completion, round robin)\n");
	fprintf(o, "kind sim\nvariant %s\nprop %d\nclass %s\nhash %016llx\n", sut_variant, prop, f.v.cls.c_str(), (unsigned long long)f.hash);
	hexdump(o, "plan", &f.in, sizeof f.in);
	for (auto& it : f.items) fprintf(o, "item %u %u %u %llu %u\n", it.kind, it.t, it.a, (unsigned long long)it.n, it.pad);
	fclose(o);
}

// ---- bulk histories ------------------------------------------------------------------------------------------------------------
static u64 run_seed(u64 vs, int prop, u64 k) {
	u64 h = mix64(vs * 1000003 + u64(prop)); for (const char* p = sut_variant; *p; ++p) h = mix64(h ^ u8(*p)); return mix64(h ^ k);
}
static void gen_bulk(int prop, u64 seed, u32 n) {
	Rng r(seed); BK->n = n; memset(&BK->prof, 0, sizeof BK->prof); BK->prof.seed = r.next();
	Pool pool; pool.apimask = (1u << NAPI) - 1; pool.modemask = (1u << NMODE) - 1; pool.crsmask = 0x1f; pool.dblmask = 3;
	if (prop == C05 || prop == C06) pool.apimask = (1u << A_CHARS) | (1u << A_CHARS_N) | (1u << A_POLICY) | (1u << A_SEARCH);
	BulkProf& p = BK->prof;
	if (prop == C07) p.env = 1;
	if (prop == C08) { p.env = 1; p.check = 1; }
	if (prop == C05) p.contain = 1;
	if (prop == C09) { static const u8 pat[8] = { 1, 1, 1, 2, 4, 254, 252, 253 }; p.afail = pat[r.below(8)]; p.stack8k = 1; }
	if (prop == C11) p.loc = 1;
	if (prop == C26) p.place = 1;
	if (prop == C13) p.exc = 1;
	if (prop == C28) { p.effects = 1; { static const u8 pat[8] = { 1, 1, 1, 2, 4, 254, 252, 253 }; p.afail = r.below(3) ? 0 : pat[r.below(8)]; } p.loc = u8(r.below(3) == 0); p.env = u8(r.below(3) == 0); }
	BK->order = prop == C12 ? u32(r.below(3)) : prop == 0 ? 0 : u32(r.below(2)) * 2;
	u32 narrow = u32(r.below(3));
	u32 fresh = narrow == 0 ? 950 : narrow == 1 ? 500 : 50;
	vector<HotOp> hist;
	// stretches of calls that have something in common: the kind of value, the type, the entry point, the policy
	if (n > 100000 && r.chance(600)) { pool.apimask = r.below(2) ? 1 : 3; pool.dblmask = u8(1 + r.below(2)); }   // very long histories of one kind of call
	u32 odd = 0;
	bool stretches = r.chance(400); u32 left = 0, what = 16, near = 0; HotOp seg{}; bool fa = false, fd = false, fm = false;
	for (u32 i = 0; i < n; ++i) {
		HotOp h;
		if (stretches && r.chance(left ? 985 : 0)) {
			--left; h = seg;
			if (!fd) h.dbl = u8(pool.dblmask == 3 ? r.below(2) : pool.dblmask - 1); if (!fa) h.api = u8(r.below(NAPI)); if (!fm) { h.mode = u8(r.below(NMODE)); h.crs = u8(r.below(NCRS)); }
			if (left < 4 || r.chance(odd)) { h = seg; h.bits = r.below(2) ? gen_bits(r, h.dbl, 11) : gen_bits(r, h.dbl); }   // something else, for once
			else if (near == 1 && h.dbl == seg.dbl) h.bits = seg.bits + r.below(64); else if (near == 2 && h.dbl == seg.dbl) h.bits = seg.bits = seg.bits + 1; else h.bits = gen_bits(r, h.dbl, what);
			pool.v.assign(1, h); if (!(pool.apimask >> h.api & 1)) h.api = pool.v[0].api = u8(r.below(2));
			if (zero_bits(h.bits, h.dbl) || !finite_bits(h.bits, h.dbl)) h.api = u8(r.below(2));
			if (!h.dbl) h.bits &= 0xffffffffull;
			if (!left) { hist.push_back(h); if (hist.size() > 64) hist.erase(hist.begin()); }
		}
		else {
			if (stretches && !left) { left = 1 + u32(r.below(1u << (1 + r.below(11)))); what = u32(r.below(17)); fa = r.chance(500); fd = r.chance(600); fm = r.chance(500); near = u32(r.below(8)); seg = HotOp{ u8(r.below(NAPI)), u8(pool.dblmask == 3 ? r.below(2) : pool.dblmask - 1), u8(r.below(NMODE)), u8(r.below(NCRS)), 0 }; odd = r.below(2) ? 0 : r.below(2) ? 60 : 4; seg.bits = gen_bits(r, seg.dbl, what); }
		if (hist.size() < 2 || r.chance(fresh)) { pool.v.assign(1, HotOp{ u8(r.below(NAPI)), u8(pool.dblmask == 3 ? r.below(2) : pool.dblmask - 1), u8(r.below(4) ? r.below(NMODE) : 0), u8(r.below(4) ? r.below(NCRS) : 0), 0 }); pool.v[0].bits = gen_bits(r, pool.v[0].dbl); if (!g_rare.empty() && r.chance(prop == 0 ? 300 : 100)) pool.v[0] = g_rare[r.below(g_rare.size())]; if (!(pool.apimask >> pool.v[0].api & 1)) pool.v[0].api = u8(r.below(2)); h = gen_op(r, pool); if (hist.size() < 64) hist.push_back(h); else hist[r.below(64)] = h; }
		else { pool.v.assign(1, hist[r.below(hist.size())]); h = gen_op(r, pool); }
		}
		if ((h.api == A_SIGNED || h.api == A_UNSIGNED || h.api == A_HANDLER || h.api == A_POLICY_S) && !finite_bits(h.bits, h.dbl)) h.api = A_CHARS;   // (these may legitimately assert)
		BulkOp& b = BK->op[i]; b.api = h.api; b.dbl = h.dbl; b.mode = h.mode; b.crs = h.crs; b.bits = h.bits; b.slotfill = u32(r.next());
	}
}
// Some guarantees promise completion outright ("each call completes", "terminates nothing"): a call that dies or
// never returns even when it is made alone breaks those. Everywhere else such a call is left out and counted.
static bool promises_completion(int prop) { return prop == C01 || prop == C02 || prop == C03 || prop == C04 || prop == C09; }
struct BulkFail { bool bad = false; u32 i = 0; string cls, text; };
static PlanOp plan_of(const BulkOp& b) { PlanOp p{}; p.api = b.api; p.dbl = b.dbl; p.mode = b.mode; p.crs = b.crs; p.bits = b.bits; p.mxcsr = 0x1f80; p.fcw = 0x37f; p.reidx = 0xff; return p; }
static string bop_text(const BulkOp& b) { static RunIn in; in.ndesc = 1; in.op[0] = plan_of(b); return op_text(in, 0); }
// the digest of one call made alone in a pristine process
static u64 alone_digest(const BulkOp& b, bool* crash) {
	BulkOp save = BK->op[0]; u32 n = BK->n; u64 d1 = BK->dig[1][0]; u8 l = BK->len[0];
	BK->op[0] = b; BK->n = 1; BK->stopped = 0;
	int st = in_child([] { kern_bulk_child(1); });
	*crash = st != 0 || BK->stopped != 2; u64 r = BK->dig[1][0];
	BK->op[0] = save; BK->n = n; BK->dig[1][0] = d1; BK->len[0] = l; BK->stopped = 2;
	return r;
}
static BulkFail bulk_once(bool confirm_all) {
	BulkFail f; char b[200];
	BK->stopped = 0;
	int st = in_child([] { kern_bulk_child(1); });
	if (st != 0 || BK->stopped != 2) {
		u32 i = BK->crash_i; bool c; alone_digest(BK->op[i], &c);
		if (c) { // fails even alone: not a history effect
			f.bad = true; f.cls = "alone-crash"; f.i = i; return f;
		}
		f.bad = true; f.cls = "crash"; f.i = i; snprintf(b, sizeof b, "died (signal %u) after %u earlier calls in a quiet history, alone it succeeds", BK->crash_sig, i); f.text = bop_text(BK->op[i]) + ": " + b; return f;
	}
	BK->stopped = 0; BK->nerr = 0;
	st = in_child([] { kern_bulk_child(0); });
	if (st != 0 || BK->stopped != 2) { u32 i = BK->crash_i; f.bad = true; f.i = i; f.cls = "crash"; snprintf(b, sizeof b, "died (signal %u, child status %d) under this environment, in a quiet process it succeeds", BK->crash_sig, st); f.text = bop_text(BK->op[i]) + ": " + b; return f; }
	if (BK->nerr) { auto e = BK->err[0]; f.bad = true; f.i = e.i; const char* n[] = { "", "fp-env", "errno", "locale", "containment", "exception", "side-effect" }; f.cls = n[e.what];
		const char* t[] = { "", "left the FP environment changed (mxcsr before/after %016llx)", "left errno changed (before/after %016llx)", "left the locale changed (%llx)", "wrote outside its own result, at offset %lld", "threw (%llx)" };
		if (e.what == BE_EFFECT) { f.text = bop_text(BK->op[e.i]) + ": " + effect_text(u32(e.detail)); return f; }
		snprintf(b, sizeof b, t[e.what], (unsigned long long)e.detail); f.text = bop_text(BK->op[e.i]) + ": " + b; return f; }
	for (u32 i = 0; i < BK->n; ++i) if (BK->dig[0][i] != BK->dig[1][i]) { f.bad = true; f.i = i; f.cls = "result"; f.text = bop_text(BK->op[i]) + ": result depends on " + (BK->prof.env ? "the FP environment or " : BK->prof.afail ? "resources or " : BK->prof.loc ? "ambient configuration or " : BK->prof.place ? "the memory layout or " : BK->prof.exc ? "exceptions under way in the caller or " : "") + "the calls made before it"; return f; }
	struct Keep { u64 a = BK->allocs, y = BK->syscalls, s = BK->steps; ~Keep() { BK->allocs = a; BK->syscalls = y; BK->steps = s; } } keep;
	if (confirm_all) {   // spot-check the quiet history against calls made alone
		u64 x = BK->prof.seed;
		for (int q = 0; q < 12; ++q) { x = mix64(x); u32 i = q == 0 ? BK->n - 1 : u32(x % BK->n); u64 want = BK->dig[1][i]; bool c; u64 got = alone_digest(BK->op[i], &c); if (c || got != want) { f.bad = true; f.i = i; f.cls = "result"; f.text = bop_text(BK->op[i]) + ": result in a history differs from the call made alone"; return f; } }
	}
	return f;
}
static bool alone_fails(const BulkOp& b, BulkFail* f) {
	bool c; BulkProf pf = BK->prof; memset(&BK->prof, 0, sizeof BK->prof); alone_digest(b, &c); u32 sig = BK->crash_sig; BK->prof = pf;
	if (!c) return false;
	char t[160]; snprintf(t, sizeof t, sig == SIGXCPU || sig == SIGPROF ? "never returns, not even when it is the only call of a process" : "kills the process (signal %u) even when it is its only call", sig);
	f->bad = true; f->cls = "alone"; f->i = 0; f->text = bop_text(b) + ": " + t; return true;
}
// compares every call of the (small) history with the call made alone
static BulkFail bulk_explicit(const vector<BulkOp>& ops, const BulkProf& pf, const string& cls) {
	if (cls == "alone") { BulkFail g; alone_fails(ops[0], &g); return g; }
	BulkFail f; BK->n = u32(ops.size()); BK->order = 0; memcpy(BK->op, ops.data(), ops.size() * sizeof(BulkOp)); BK->prof = pf;
	vector<u64> want(ops.size());
	static std::map<vector<u64>, u64> memo;
	for (u32 i = 0; i < ops.size(); ++i) {
		vector<u64> key{ ops[i].api, ops[i].dbl, ops[i].mode, ops[i].crs, ops[i].bits };
		auto it = memo.find(key); if (it != memo.end()) { want[i] = it->second; continue; }
		bool c; want[i] = alone_digest(ops[i], &c); if (c) return f; memo[key] = want[i];
	}
	BK->n = u32(ops.size());
	f = bulk_once(false);
	if (f.bad) return f;
	for (u32 i = 0; i < ops.size(); ++i) if (BK->dig[1][i] != want[i] || BK->dig[0][i] != want[i]) { f.bad = true; f.i = i; f.cls = "result"; f.text = bop_text(ops[i]) + ": result in this history differs from the call made alone"; return f; }
	return f;
}
static void write_bulk(const string& path, int prop, const vector<BulkOp>& ops, const BulkProf& pf, const BulkFail& f, u64 seed, u64 k) {
	FILE* o = fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); exit(2); }
	fprintf(o, "# property C%02d  variant %s  run %llu  seed 0x%llx\n# violation (%s): %s\n# history of %zu call(s), one after another, in one process:\n", prop, sut_variant, (unsigned long long)k, (unsigned long long)seed, f.cls.c_str(), f.text.c_str(), ops.size());
	size_t q = 0; for (auto& b : ops) if (q++ < 40) fprintf(o, "#   %s\n", bop_text(b).c_str());
	fprintf(o, "kind bulk\nvariant %s\nprop %d\nclass %s\nhash 0\n", sut_variant, prop, f.cls.c_str());
	hexdump(o, "prof", &pf, sizeof pf);
	for (auto& b : ops) hexdump(o, "op", &b, sizeof b);
	fclose(o);
}

// ---- the worker --------------------------------------------------------------------------------------------------------------------
struct Stats {
	u64 runs = 0, ok = 0, bulk = 0, bulkcalls = 0, steps = 0, slices = 0, switches = 0, hot = 0, syscalls = 0, allocs = 0, allocfails = 0, tscs = 0, faults = 0, skipped = 0, completed = 0, abandoned = 0, nested = 0, excluded = 0, empty = 0, recheck = 0, bulk_alone_crash = 0, multi = 0;
	u64 fired[NKIND] = {};
	std::set<u64> il; std::set<u64> opsig; u64 clockns = 0, sbdelays = 0;
};
static std::map<string, string> g_arg;
static u64 argn(const char* k, u64 def) { auto i = g_arg.find(k); return i == g_arg.end() ? def : strtoull(i->second.c_str(), nullptr, 0); }
static string args(const char* k, const char* def = "") { auto i = g_arg.find(k); return i == g_arg.end() ? def : i->second; }
static double now() { timespec a; clock_gettime(CLOCK_MONOTONIC, &a); return a.tv_sec + a.tv_nsec * 1e-9; }

static void load_hot() {
	string h = args("hot"); if (h.empty()) return;
	FILE* f = fopen(h.c_str(), "r"); if (!f) return;
	char kind; unsigned a, b, c, d; unsigned long long v, w;
	while (fscanf(f, " %c %u %u %u %u %llx %llx", &kind, &a, &b, &c, &d, &v, &w) == 7) {
		HotOp h{ u8(a), u8(b), u8(c), u8(d), v, w };
		if (kind == 'H') { g_hotaddr[w].push_back(u32(g_hot.size())); g_hot.push_back(h); } else if (kind == 'R') g_rare.push_back(h); else g_konst.push_back(v);
	}
	fclose(f);
}
static u32 g_unrepro;
// Returns true if a confirmed violation was written.
static bool handle_violation(int prop, const RunIn& in, u64 seed, u64 k, const Viol& v0, u64 hash0) {
	// gate 1: the same seed again, twice, must give the same execution
	vector<Item> items;
	for (int i = 0; i < 2; ++i) {
		RunOut& o = run_sim(in); Viol v = judge(prop, in, o);
		if (v.cls != v0.cls || (v0.cls != "hang" && o.hash != hash0)) { fprintf(stderr, "run %llu of C%02d: %s seen once (%s), not reproduced by its seed\n", (unsigned long long)k, prop, v0.cls.c_str(), v0.text.c_str()); ++g_unrepro; return false; }
		items.assign(SH->items, SH->items + o.nitems);
	}
	Failing f{ in, items, v0, hash0 };
	// gate 2: the recorded trace alone must reproduce it
	if (!try_case(prop, in, items, v0.cls, &f.v, &f.hash)) { fprintf(stderr, "run %llu of C%02d: trace does not reproduce %s (%s)\n", (unsigned long long)k, prop, v0.cls.c_str(), v0.text.c_str()); ++g_unrepro; return false; }
	minimise(prop, f, v0.cls == "hang" ? 4 : 1500, 40);
	write_replay(args("replay"), prop, f, seed, k);
	printf("FOUND %s\n", f.v.text.c_str());
	return true;
}
static bool handle_bulk(int prop, u64 seed, u64 k, BulkFail f) {
	vector<BulkOp> ops; BulkProf pf = BK->prof; u32 n = BK->n, order = BK->order;
	vector<u32> ord(n); for (u32 i = 0; i < n; ++i) ord[i] = i;
	if (order == 1) std::reverse(ord.begin(), ord.end());
	if (order == 2) { Rng r(pf.seed + 99); for (u32 i = n; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]); }
	vector<BulkOp> all(n); for (u32 i = 0; i < n; ++i) all[i] = BK->op[i];
	BulkOp target = all[f.i];
	// candidate histories: the call by itself under the profile; in execution order up to the call; in plain order up to the call
	vector<vector<BulkOp>> cand;
	cand.push_back({ target });
	{ vector<BulkOp> c; for (u32 j = 0; j < n; ++j) { c.push_back(all[ord[j]]); if (ord[j] == f.i) break; } cand.push_back(c); }
	{ vector<BulkOp> c(all.begin(), all.begin() + f.i + 1); cand.push_back(c); }
	auto fails = [&](const vector<BulkOp>& c, BulkFail* out) {   // does the last call misbehave after these?
		BK->n = u32(c.size()); BK->order = 0; memcpy(BK->op, c.data(), c.size() * sizeof(BulkOp)); BK->prof = pf;
		bool cr; u64 want = alone_digest(c.back(), &cr); if (cr) return false;
		BulkFail g = bulk_once(false); u32 last = u32(c.size()) - 1;
		if (g.bad && g.cls == f.cls) { *out = g; return true; }
		if (g.bad) return false;
		if (f.cls == "result" && (BK->dig[1][last] != want || BK->dig[0][last] != want)) { *out = g; out->bad = true; out->cls = "result"; out->i = last; out->text = bop_text(c.back()) + ": result in this history differs from the call made alone"; return true; }
		return false;
	};
	BulkFail g; double t0 = now();
	for (auto& c : cand) if (fails(c, &g)) {
		// ddmin over everything but the last call
		vector<BulkOp> cur = c; 
		if (g.i + 1 < cur.size()) { vector<BulkOp> c2(cur.begin(), cur.begin() + g.i + 1); BulkFail g2; if (fails(c2, &g2)) { cur = c2; g = g2; } }
		for (size_t ch = std::max<size_t>(cur.size() / 2, 1); cur.size() > 1 && now() - t0 < 40;) {
			bool any = false;
			for (size_t i = 0; i + 1 < cur.size() && now() - t0 < 40;) {
				vector<BulkOp> x = cur; size_t e = std::min(i + ch, x.size() - 1); x.erase(x.begin() + i, x.begin() + e);
				BulkFail h; if (fails(x, &h)) { cur = x; g = h; any = true; } else i += ch;
			}
			if (!any) { if (ch == 1) break; ch = (ch + 1) / 2; }
		}
		BulkFail h; if (!fails(cur, &h)) { ++g_unrepro; return false; }
		write_bulk(args("replay"), prop, cur, pf, h, seed, k);
		printf("FOUND %s\n", h.text.c_str());
		return true;
	}
	fprintf(stderr, "bulk run %llu of C%02d: %s not reproduced\n", (unsigned long long)k, prop, f.text.c_str());
	++g_unrepro; return false;
}
static bool handle_alone(int prop, u64 seed, u64 k, const BulkOp& b) {
	BulkFail f; if (!alone_fails(b, &f) || !alone_fails(b, &f)) return false;
	BulkProf pf; memset(&pf, 0, sizeof pf);
	write_bulk(args("replay"), prop, { b }, pf, f, seed, k);
	printf("FOUND %s\n", f.text.c_str()); return true;
}
// ---- histories of very many calls at full speed ---------------------------------------------------------------------------------
static BulkFail long_once(u64 seed, u64 total, double secs) {   // over BK->op[0..BK->n) with LG->want
	BulkFail f; char b[200]; LG->seed = seed; LG->total = total; LG->secs = secs; LG->prof = BK->prof; BK->stopped = 0;
	int st = in_child(kern_long_child);
	if (st != 0 || BK->stopped != 2) { u32 i = BK->crash_i; f.bad = true; f.cls = "crash"; f.i = i; snprintf(b, sizeof b, BK->crash_sig == SIGPROF ? "does not return after %llu earlier calls, alone it does" : "died (after %llu earlier calls), alone it succeeds", (unsigned long long)LG->calls); f.text = bop_text(BK->op[i]) + ": " + b; LG->fail_at = LG->calls; return f; }
	if (LG->fail_at != ~0ull && LG->fail_effect) { f.bad = true; f.cls = "side-effect"; f.i = LG->fail_i; snprintf(b, sizeof b, " (after %llu earlier calls)", (unsigned long long)LG->fail_at); f.text = bop_text(BK->op[f.i]) + ": " + effect_text(LG->fail_effect) + b; return f; }
	if (LG->fail_at != ~0ull) { f.bad = true; f.cls = "result"; f.i = LG->fail_i; snprintf(b, sizeof b, "after %llu earlier calls it returns something else than alone", (unsigned long long)LG->fail_at); f.text = bop_text(BK->op[f.i]) + ": " + b; }
	return f;
}
static bool long_wants(const vector<BulkOp>& ops) {   // results of the calls made alone
	BK->n = u32(ops.size()); memcpy(BK->op, ops.data(), ops.size() * sizeof(BulkOp));
	for (u32 i = 0; i < ops.size(); ++i) { bool c; LG->want[i] = alone_digest(ops[i], &c); if (c) return false; }
	return true;
}
static bool handle_long(int prop, u64 vs, u64 seed, u32 kind, double secs, u64* calls) {
	Rng r(seed); u32 n = 1u << (6 + r.below(6)); BulkFail f;
	gen_bulk(prop, seed, n); BK->order = 0;
	// what kind of call prevails: text of doubles, everything, text of floats, decimals
	if (kind % 4 != 1) for (u32 i = 0; i < n; ++i) if (r.chance(900)) {
		BulkOp& b = BK->op[i]; if (kind % 4 == 3) { b.api = u8(r.below(2) ? A_SIGNED : A_UNSIGNED); for (int g = 0; (zero_bits(b.bits, b.dbl) || !finite_bits(b.bits, b.dbl)) && g < 1000; ++g) b.bits = gen_bits(r, b.dbl, 2); continue; }
		b.api = u8(r.below(2)); u8 d = kind % 4 == 0; if (b.dbl != d) { b.dbl = d; b.bits = gen_bits(r, d); }
	}
	for (;;) {   // calls that fail alone are left out
		f = bulk_once(false); if (!(f.bad && f.cls == "alone-crash")) break;
		BulkOp bad = BK->op[f.i]; if (promises_completion(prop) && handle_alone(prop, vs, 0, bad)) return true;
		u32 m = 0; for (u32 i = 0; i < BK->n; ++i) { BulkOp& b = BK->op[i]; if (!(b.api == bad.api && b.dbl == bad.dbl && b.mode == bad.mode && b.crs == bad.crs && b.bits == bad.bits)) BK->op[m++] = b; } BK->n = m; if (!m) return false;
	}
	if (f.bad) return handle_bulk(prop, vs, 0, f);
	for (u32 i = 0; i < BK->n; ++i) LG->want[i] = BK->dig[1][i];
	f = long_once(seed, ~0ull, secs); *calls += LG->calls;
	if (!f.bad) return false;
	// again, against the calls made alone, then with fewer different calls
	vector<BulkOp> ops(BK->op, BK->op + BK->n); BulkProf pf = BK->prof; u64 total = LG->fail_at + 1; string cls = f.cls; double t0 = now();
	if (!long_wants(ops)) { ++g_unrepro; return false; }
	f = long_once(seed, total, 1e9);
	if (!f.bad || f.cls != cls || LG->fail_at + 1 != total) { fprintf(stderr, "long history of C%02d: %s not reproduced\n", prop, cls.c_str()); ++g_unrepro; return false; }
	for (u32 k = 1; k < ops.size() && now() - t0 < 30; k *= 2) {
		vector<BulkOp> c; c.push_back(BK->op[f.i]); for (u32 i = 0; c.size() < k; ++i) c.push_back(ops[i]);
		if (!long_wants(c)) break;
		BulkFail g = long_once(seed, total * 4 + 1000, 8);
		if (g.bad && g.cls == cls) { ops = c; f = g; total = LG->fail_at + 1; break; }
		long_wants(ops);
	}
	BK->prof = pf; if (!long_wants(ops)) { ++g_unrepro; return false; }
	f = long_once(seed, total, 1e9); if (!f.bad || f.cls != cls) { ++g_unrepro; return false; }
	FILE* o = fopen(args("replay").c_str(), "w"); if (!o) { perror("replay"); exit(2); }
	fprintf(o, "# property C%02d  variant %s\n# violation (%s): %s\n# a history of %llu calls made of these, in an order given by the seed:\n", prop, sut_variant, cls.c_str(), f.text.c_str(), (unsigned long long)total);
	for (size_t i = 0; i < ops.size() && i < 40; ++i) fprintf(o, "#   %s\n", bop_text(ops[i]).c_str());
	fprintf(o, "kind long\nvariant %s\nprop %d\nclass %s\nhash 0\nseed %llu\ntotal %llu\n", sut_variant, prop, cls.c_str(), (unsigned long long)seed, (unsigned long long)total);
	hexdump(o, "prof", &pf, sizeof pf); for (auto& b : ops) hexdump(o, "op", &b, sizeof b);
	fclose(o);
	printf("FOUND %s\n", f.text.c_str());
	return true;
}

// ---- what calls leave behind --------------------------------------------------------------------------------------------------
static BulkFail leak_once(int prop, u64 seed, u64 each, u32 segs, u32 newthreads) {   // over BK->op[0..BK->n)
	BulkFail f; char b[200]; LG->seed = seed; LG->total = each; LG->segs = segs; LG->newthreads = newthreads & 1; LG->fresh = newthreads >> 8; LG->cost = prop == C29; LG->prof = BK->prof; BK->stopped = 0;
	int st = in_child(kern_leak_child);
	if (st != 0 || BK->stopped != 2) return f;    // (other properties' business)
	if (prop == C29) {
		if (LG->done == segs && !LG->fresh) for (u32 i = 0; i < BK->n && i < each && !f.bad; ++i) {
			const u64 a = LG->opcost[0][i], m = LG->opcost[1][i], l = LG->opcost[2][i]; if (!a || l == ~0u || l <= m || m <= a) continue;
			if (segs < 12 ? l > a + 8 : l > 2 * a + 300 && 4 * l > 5 * m && 4 * m > 5 * a) { f.bad = true; f.cls = "left-behind"; f.i = i; snprintf(b, sizeof b, ": takes more and more steps: %llu, %llu, %llu after %llu calls%s", (unsigned long long)a, (unsigned long long)m, (unsigned long long)l, (unsigned long long)(each * segs), newthreads & 1 ? " by threads that end" : ""); f.text = bop_text(BK->op[i]) + b; }
		}
		if (!f.bad && LG->done == segs) {   // the dearest call, compared with the same call as the only one of a process
			u32 i = 0, l = 0; for (u32 q = 0; q < BK->n && q < each; ++q) if (LG->opcost[2][q] != ~0u && LG->opcost[2][q] > l) l = LG->opcost[2][i = q];
			static LongShared keep; keep = *LG; const u32 n = BK->n; const BulkOp op0 = BK->op[0];
			BK->n = 1; const BulkOp opi = BK->op[i]; u32 a = 0; bool ok = true;
			for (u32 v = 0; v < (keep.fresh ? 6 : 1) && ok; ++v) {   // (and with other values of its kind)
				BK->op[0] = opi; LG->total = sut_engine == 1; LG->segs = 1; LG->prof.afail = LG->prof.loc = 0; LG->newthreads = 0; LG->fresh = 0;
				if (v) { const u64 y = opi.bits ^ (mix64(v ^ seed) & ((u64(1) << (opi.dbl || keep.fresh < 23 ? keep.fresh : 23)) - 1)); if (opi.dbl ? y << 1 : u32(y) << 1) BK->op[0].bits = opi.dbl ? y : u32(y); }
				st = in_child(kern_leak_child); ok = st == 0 && BK->stopped == 2 && LG->use[0][U_COST] > 0; a = std::max(a, u32(LG->use[0][U_COST]));
			}
			*LG = keep; BK->n = n; BK->op[0] = op0; BK->stopped = 2;
			if (ok && l > 2 * a + 300) { f.bad = true; f.cls = "left-behind"; f.i = i; snprintf(b, sizeof b, ": takes %u steps as the only call of a process, but never less than %u after %llu calls%s", a, l, (unsigned long long)(each * segs), newthreads & 1 ? " by threads that end" : ""); f.text = bop_text(BK->op[i]) + b; }
		}
		if (f.bad) return f;
		string g = costs(LG->use, LG->done); if (!g.empty()) { f.bad = true; f.cls = "left-behind"; snprintf(b, sizeof b, "%llu calls%s ", (unsigned long long)each, newthreads & 1 ? " by threads that end" : ""); f.text = b + g; } return f; }
	if (LG->fail_at != ~0ull) { f.bad = true; f.cls = "left-behind"; f.i = LG->fail_i; snprintf(b, sizeof b, "copies of the caller's callback objects were not destroyed, or more than once (after %llu earlier calls)", (unsigned long long)LG->fail_at); f.text = bop_text(BK->op[f.i]) + ": " + b; return f; }
	string g = growth(LG->use, segs); if (!g.empty()) { f.bad = true; f.cls = "left-behind"; snprintf(b, sizeof b, "%llu calls%s: ", (unsigned long long)each, newthreads & 1 ? " by threads that end" : ""); f.text = b + g; }
	return f;
}
static void write_leak(const string& path, int prop, const vector<BulkOp>& ops, const BulkProf& pf, const BulkFail& f, u64 seed, u64 each, u32 segs, u32 nt) {
	FILE* o = fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); exit(2); }
	fprintf(o, "# property C%02d  variant %s\n# violation (%s): %s\n# %llu calls made of these, in an order given by the seed, gone through %u times in one process%s:\n", prop, sut_variant, f.cls.c_str(), f.text.c_str(), (unsigned long long)each, segs, nt >> 8 ? " (with other low bits each time)" : "");
	for (size_t i = 0; i < ops.size() && i < 40; ++i) fprintf(o, "#   %s%s\n", bop_text(ops[i]).c_str(), has_cb(ops[i].api) && !(ops[i].slotfill & 0x1c0) ? " [callback: throw]" : "");
	fprintf(o, "kind leak\nvariant %s\nprop %d\nclass %s\nhash 0\nseed %llu\ntotal %llu\nsegs %u\nnewthreads %u\n", sut_variant, prop, f.cls.c_str(), (unsigned long long)seed, (unsigned long long)each, segs, nt);
	hexdump(o, "prof", &pf, sizeof pf); for (auto& b : ops) hexdump(o, "op", &b, sizeof b);
	fclose(o);
}
static bool handle_leak(int prop, u64 seed, u64 each, u32 nt, u64* calls) {   // returns true if a violation was written
	Rng r(seed);
	u32 n = u32(std::min<u64>(each, 1 + r.below(r.below(2) ? u64(1) << r.below(7) : MAXLONG)));
	gen_bulk(prop, seed, n); BK->order = 0; BK->prof.afail = u8(r.below(3) == 0); BK->prof.loc = u8(r.below(4) == 0); BK->prof.seed = seed;
	vector<BulkOp> ops(BK->op, BK->op + BK->n);
	// calls that die alone are left out
	for (int guard = 0; guard < 200; ++guard) { BulkFail f = bulk_once(false); if (f.bad && f.cls == "alone-crash") { BulkOp bad = BK->op[f.i]; u32 m = 0; for (u32 i = 0; i < BK->n; ++i) { BulkOp& b = BK->op[i]; if (!(b.api == bad.api && b.dbl == bad.dbl && b.mode == bad.mode && b.crs == bad.crs && b.bits == bad.bits)) BK->op[m++] = b; } BK->n = m; if (!m) return false; continue; } break; }
	ops.assign(BK->op, BK->op + BK->n); BulkProf pf = BK->prof;
	auto go = [&](const vector<BulkOp>& c, u64 e, u32 segs) { BK->n = u32(c.size()); memcpy(BK->op, c.data(), c.size() * sizeof(BulkOp)); BK->prof = pf; return leak_once(prop, seed, e, segs, nt); };
	BulkFail f = go(ops, each, 6); *calls += LG->calls;
	if (!f.bad) return false;
	// something that has a bound stops growing sooner or later
	u64 e = each; u32 segs = 60;
	f = go(ops, e, segs); *calls += LG->calls;
	if (f.bad && LG->fail_at == ~0ull && LG->done == segs && e * segs < 1000000) { f = go(ops, 1000000 / segs / (sut_engine == 1 ? 4 : 1) + 1, segs); *calls += LG->calls; if (f.bad) e = 1000000 / segs / (sut_engine == 1 ? 4 : 1) + 1; }
	if (!f.bad) return false;
	for (double t0 = now(); ops.size() > 1 && now() - t0 < 20;) {   // fewer different calls
		bool any = false;
		for (size_t ch = (ops.size() + 1) / 2; ch && now() - t0 < 20; ch = ch == 1 ? 0 : (ch + 1) / 2) for (size_t i = 0; i < ops.size() && ops.size() > 1 && now() - t0 < 20;) {
			vector<BulkOp> c = ops; size_t q = std::min(i + ch, c.size()); c.erase(c.begin() + i, c.begin() + q); if (c.empty()) { i += ch; continue; }
			BulkFail g = go(c, e, segs); if (g.bad) { ops = c; any = true; } else i += ch;
		}
		if (!any) break;
	}
	while (e > 1) { BulkFail g = go(ops, e / 2, segs); if (!g.bad) break; e /= 2; }
	f = go(ops, e, segs); if (!f.bad) { ++g_unrepro; return false; }
	write_leak(args("replay"), prop, ops, pf, f, seed, e, segs, nt);
	printf("FOUND %s\n", f.text.c_str()); return true;
}

static bool has_bulk(int prop) { return prop == C05 || prop == C06 || prop == C07 || prop == C08 || prop == C09 || prop == C11 || prop == C12 || prop == C26 || prop == C28; }
static int worker() {
	int prop = int(argn("prop", 1)); u64 vs = argn("seed", 1), k0 = argn("k0", 0), step = argn("step", 1), count = argn("count", 1000); double secs = double(argn("secs", 60));
	u64 bulk_every = argn("bulk_every", 48); u32 bulk_n = u32(argn("bulk_n", 20000)); if (bulk_n > MAXBULK) bulk_n = MAXBULK;
	u64 recheck_every = argn("recheck", 400);
	load_hot();
	Stats s; double t0 = now(); bool found = false; u64 kdone = 0; FILE* hl = nullptr;
	if (!args("hashes").empty()) hl = fopen(args("hashes").c_str(), "w");
	u64 longcalls = 0;
	if (double ls = double(argn("long", 0))) { u32 parts = ls < 6 ? 1 : 2; u32 first = sut_variant[4] == '-' ? 2 : 0; for (u32 q = 0; q < parts && !found; ++q) found = handle_long(prop, vs, run_seed(vs, prop, ~u64(q)), q ? first + 1 : first, q ? ls * 0.4 : ls * 0.6, &longcalls); }
	for (u64 k = k0; k < count && !found; k += step) {
		if (now() - t0 > secs) break;
		u64 seed = run_seed(vs, prop, k); ++kdone;
		if ((prop == C27 || prop == C29) && bulk_every && (k / step) % (prop == C29 ? bulk_every / 3 + 1 : bulk_every) == 0) {
			Rng rr(seed ^ 55); u32 sh = u32(rr.below(sut_engine == 1 ? 16 : 20)); if (sh > 12 && rr.below(2)) sh -= 8;
			found = handle_leak(prop, seed, 16 + (u64(1) << sh), u32(rr.below(2)) | (rr.below(2) ? u32(1 + rr.below(rr.below(2) ? 52 : 23)) << 8 : 0), &longcalls); ++s.bulk; if (hl) fprintf(hl, "%llu leak %lld %lld\n", (unsigned long long)k, (long long)LG->use[5][0], (long long)LG->calls);
			continue;
		}
		if (has_bulk(prop) && bulk_every && (k / step) % bulk_every == 0) {
			u32 n = bulk_n; Rng rr(seed ^ 77); u32 z = u32(rr.below(32)); if (z < 8) n = bulk_n / 16 + 1; else if (z < 16) n = bulk_n / 4 + 1; else if (z < (prop == C12 ? 19 : 17)) n = MAXBULK / 2 + u32(rr.below(MAXBULK / 2));
			gen_bulk(prop, seed, n);
			for (int guard = 0; guard < 200; ++guard) {
				BulkFail f = bulk_once(true);
				if (f.bad && f.cls == "alone-crash") { // exclude calls that fail alone
					++s.bulk_alone_crash; BulkOp bad = BK->op[f.i]; if (promises_completion(prop) && handle_alone(prop, seed, k, bad)) { found = true; break; } u32 m = 0; for (u32 i = 0; i < BK->n; ++i) { BulkOp& b = BK->op[i]; if (!(b.api == bad.api && b.dbl == bad.dbl && b.mode == bad.mode && b.crs == bad.crs && b.bits == bad.bits)) BK->op[m++] = b; } BK->n = m; if (!m) break; continue; }
				if (f.bad) found = handle_bulk(prop, seed, k, f);
				break;
			}
			++s.bulk; s.bulkcalls += 2 * BK->n; s.allocs += BK->allocs; s.syscalls += BK->syscalls; s.steps += BK->steps;
			if (hl) { u64 h = 0; for (u32 i = 0; i < BK->n; ++i) h = mix64(h ^ BK->dig[0][i]); fprintf(hl, "%llu bulk %016llx\n", (unsigned long long)k, (unsigned long long)h); }
			continue;
		}
		RunIn in; gen_run(prop, seed, in);
		u32 ex = 0; bool some = prepare(in, seed, prop, &ex);
		if (promises_completion(prop)) for (u32 d = 0; d < in.ndesc && !found; ++d) { const PlanOp& p = in.op[d]; if (g_ref[d].crash && p.api < A_INIT && p.beh == B_NONE && !(p.api == A_HANDLER && !finite_bits(p.bits, p.dbl))) found = handle_alone(prop, seed, k, BulkOp{ p.api, p.dbl, p.mode, p.crs, 0, p.bits }); }
		if (found) break;
		if (!some) { ++s.empty; s.excluded += ex; continue; }
		s.excluded += ex;
		RunOut& o = run_sim(in);
		Viol v = judge(prop, in, o);
		if (v.cls == "left-behind" && in.passes == 10) {   // something with a bound, or does it go on?
			in.passes = sut_engine == 1 ? 200 : 80; in.budget = kBudget; u64 h = (run_sim(in), o.hash); (void)h; v = judge(prop, in, o);
		}
		++s.runs;
		if (hl) fprintf(hl, "%llu %u %016llx %016llx\n", (unsigned long long)k, o.status, (unsigned long long)o.hash, (unsigned long long)o.ilhash);
		s.steps += o.steps; s.slices += o.slices; s.switches += o.switches; s.hot += o.hot; s.syscalls += o.syscalls; s.allocs += o.allocs; s.allocfails += o.allocfails; s.tscs += o.tscs; s.faults += o.fault_in_flight; s.skipped += o.skipped;
		for (int i = 0; i < NKIND; ++i) s.fired[i] += o.fired[i];
		for (u32 d = 0; d < in.ndesc; ++d) { s.completed += o.r[d].nfin; s.abandoned += o.r[d].abandoned; }
		s.nested += o.nested_max > 1; s.sbdelays += o.sbdelays; s.multi += in.nthreads > 1;
		if (s.il.size() < 400000) s.il.insert(o.ilhash);
		s.clockns += o.clockns ? o.clockns - 1000000000000ull : 0;
		if (v) { RunOut oc = o; (void)oc; found = handle_violation(prop, in, seed, k, v, o.hash); if (!found && g_unrepro > 20) break; continue; }
		++s.ok;
		if (recheck_every && (k / step) % recheck_every == recheck_every / 2) {   // determinism sample, and trace-only replay of a passing run
			u64 h = o.hash, il = o.ilhash; vector<Item> items(SH->items, SH->items + o.nitems);
			RunOut& o2 = run_sim(in); if (o2.hash != h || o2.ilhash != il) die("a run is not a function of its seed", 0);
			RunIn in3 = in; in3.online = 0; in3.nitems_in = u32(items.size()); if (!items.empty()) memcpy(SH->items, items.data(), items.size() * sizeof(Item));
			RunOut o1 = o2; RunOut& o3 = run_sim(in3);
			if (o3.hash != h) {
				fprintf(stderr, "run %llu seed %llx: status %u/%u steps %llu/%llu slices %llu/%llu\n", (unsigned long long)k, (unsigned long long)seed, o1.status, o3.status, (unsigned long long)o1.steps, (unsigned long long)o3.steps, (unsigned long long)o1.slices, (unsigned long long)o3.slices);
				for (u32 d = 0; d < in.ndesc; ++d) if (o1.r[d].steps != o3.r[d].steps || o1.r[d].nexec != o3.r[d].nexec) fprintf(stderr, "  call %u: steps %llu/%llu made %u/%u\n", d, (unsigned long long)o1.r[d].steps, (unsigned long long)o3.r[d].steps, o1.r[d].nexec, o3.r[d].nexec);
				for (int q = 0; q < NKIND; ++q) if (o1.fired[q] != o3.fired[q]) fprintf(stderr, "  %s: %llu/%llu\n", kind_name[q], (unsigned long long)o1.fired[q], (unsigned long long)o3.fired[q]);
				die("a recorded trace does not replay its run", 0);
			}
			++s.recheck;
		}
	}
	if (hl) fclose(hl);
	double wall = now() - t0;
	u64 cov = 0; for (u32 i = 0; i < sizeof SH->cov; ++i) cov += SH->cov[i];
	string out = args("out");
	if (!out.empty()) {
		FILE* f = fopen(out.c_str(), "w");
		fprintf(f, "{\"variant\":\"%s\",\"engine\":%d,\"tried\":%llu,\"runs\":%llu,\"ok\":%llu,\"bulk\":%llu,\"bulkcalls\":%llu,\"longcalls\":%llu,\"steps\":%llu,\"slices\":%llu,\"switches\":%llu,\"hot\":%llu,\"syscalls\":%llu,\"allocs\":%llu,\"allocfails\":%llu,\"tsc\":%llu,\"faults_in_flight\":%llu,\"skipped\":%llu,\"completed\":%llu,\"abandoned\":%llu,\"nested_runs\":%llu,\"multi_runs\":%llu,\"excluded\":%llu,\"empty\":%llu,\"recheck\":%llu,\"compared\":%llu,\"bulk_alone_crash\":%llu,\"unreproduced\":%u,\"forks\":%llu,\"cov\":%llu,\"clock_ns\":%llu,\"sbdelays\":%llu,\"wall\":%.2f,\"hot_pool\":%zu,\"have_locale\":%d,\"ninit\":%d,\"nfini\":%d,\"fired\":{",
			sut_variant, sut_engine, (unsigned long long)kdone, (unsigned long long)s.runs, (unsigned long long)s.ok, (unsigned long long)s.bulk, (unsigned long long)s.bulkcalls, (unsigned long long)longcalls, (unsigned long long)s.steps, (unsigned long long)s.slices, (unsigned long long)s.switches, (unsigned long long)s.hot, (unsigned long long)s.syscalls, (unsigned long long)s.allocs, (unsigned long long)s.allocfails, (unsigned long long)s.tscs, (unsigned long long)s.faults, (unsigned long long)s.skipped, (unsigned long long)s.completed, (unsigned long long)s.abandoned, (unsigned long long)s.nested, (unsigned long long)s.multi, (unsigned long long)s.excluded, (unsigned long long)s.empty, (unsigned long long)s.recheck, (unsigned long long)g_compared, (unsigned long long)s.bulk_alone_crash, g_unrepro, (unsigned long long)g_forks, (unsigned long long)cov, (unsigned long long)s.clockns, (unsigned long long)s.sbdelays, wall, g_hot.size(), int(kern_have_locale), kern_ninit(), kern_nfini());
		for (int i = 0; i < NKIND; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", kind_name[i], (unsigned long long)s.fired[i]);
		fprintf(f, "}}\n"); fclose(f);
		FILE* g = fopen((out + ".il").c_str(), "w"); for (u64 h : s.il) fwrite(&h, 8, 1, g); fclose(g);
	}
	if (found) return 1;
	return g_unrepro ? 3 : 0;
}
static int scout() {   // which calls touch writable static data, thread-local storage, the heap or the kernel?
	u64 vs = argn("seed", 1), k0 = argn("k0", 0); u32 rounds = u32(argn("rounds", 4)), n = u32(argn("bulk_n", 50000));
	BK->scout = 1; memset(BK->ffreq, 0, sizeof BK->ffreq); memset(BK->konst, 0, sizeof BK->konst); BK->nkonst = 0;
	std::map<u32, vector<HotOp>> rare; u32 few = 12; static u32 combo[NAPI * 2 * NMODE * NCRS]; auto cid = [](const HotOp& h) { return ((h.api * 2 + h.dbl) * NMODE + h.mode) * NCRS + h.crs; }; auto gather = [&] { g_rare.clear(); for (auto it = rare.begin(); it != rare.end();) if (BK->ffreq[it->first] > few || BK->ffreq[it->first] * 100 > combo[cid(it->second[0])]) it = rare.erase(it); else { for (auto& h : it->second) g_rare.push_back(h); ++it; } };
	struct E { HotOp h; u64 ad[4]; }; vector<E> all; std::set<vector<u64>> seen; std::map<u64, u32> freq; u64 calls = 0; u32 noaddr = 0;
	double tq = now();
	for (u32 q = 0; q < rounds && now() - tq < argn("secs", 60); ++q) {
		BK->scout = q % 3 ? 2 : 1; vector<HotOp> keep; vector<u64> keepk; if (BK->scout == 1) { keep.swap(g_rare); keepk.swap(g_konst); }   // unguided rounds measure how rare a path is, guided ones look for more like it
		gen_bulk(0, mix64(vs ^ mix64(k0 * 1000 + q) ^ 0x5c007), n);
		BK->stopped = 0; for (u32 i = 0; i < BK->n; ++i) { BK->len[i] = 26; BK->hot[i] = 0; }
		in_child([] { kern_bulk_child(0); });
		for (u32 i = 0; i < BK->n && all.size() < 200000; ++i) if (BK->hot[i]) {
			bool news = false; BulkOp& b = BK->op[i];
			if (!BK->haddr[i][0]) news = noaddr++ < 1000;
			for (int z = 0; z < 4; ++z) if (BK->haddr[i][z] && freq[BK->haddr[i][z]] < 400) news = true;
			if (news && seen.insert({ b.api, b.dbl, b.mode, b.crs, b.bits }).second) { E e{ HotOp{ b.api, b.dbl, b.mode, b.crs, b.bits }, {} }; for (int z = 0; z < 4; ++z) if ((e.ad[z] = BK->haddr[i][z])) ++freq[e.ad[z]]; all.push_back(e); }
		}
		for (u32 i = 0; i < BK->n; ++i) if (BK->scout == 1) { BulkOp& b = BK->op[i]; ++combo[cid(HotOp{ b.api, b.dbl, b.mode, b.crs, 0 })]; }
		for (u32 i = 0; i < BK->n; ++i) if (BK->stopped == 2 && BK->ffreq[BK->rare[i]] <= few + 60) { auto& v = rare[BK->rare[i]]; BulkOp& b = BK->op[i]; if (v.size() < 2) v.push_back(HotOp{ b.api, b.dbl, b.mode, b.crs, b.bits }); }
		calls += BK->n; few = u32(std::max<u64>(12, calls / 6000)); gather();
		g_konst.clear(); for (u64 c : BK->konst) if (c) g_konst.push_back(c);
	}
	// keep the calls in groups that store to one place; of several places the least popular shared one tells most
	std::map<u64, vector<u32>> grp;
	for (u32 i = 0; i < all.size(); ++i) { u64 best = 0; for (u64 ad : all[i].ad) if (ad && freq[ad] > 1 && (!best || freq[ad] < freq[best])) best = ad; all[i].h.addr = best; grp[best].push_back(i); }
	vector<HotOp> hot; Rng rr(vs ^ k0);
	for (u32 round = 0; round < 6 && hot.size() < 60; ++round) for (auto& g : grp) { if (hot.size() >= 60) break; if (g.second.size() <= 2 * round) continue; if (grp.size() > 30 && rr.below(grp.size()) > 40) continue; for (u32 z = 2 * round; z < 2 * round + 2 && z < g.second.size(); ++z) hot.push_back(all[g.second[z]].h); }
	FILE* f = fopen(args("out").c_str(), "w");
	for (size_t i = g_rare.size(); i > 1; --i) std::swap(g_rare[i - 1], g_rare[rr.below(i)]);
	for (size_t i = 0; i < g_rare.size() && i < 80; ++i) { HotOp& h = g_rare[i]; fprintf(f, "R %u %u %u %u %llx 0\n", h.api, h.dbl, h.mode, h.crs, (unsigned long long)h.bits); }
	for (u64 c : g_konst) fprintf(f, "K 0 0 0 0 %llx 0\n", (unsigned long long)c);
	for (auto& h : hot) fprintf(f, "H %u %u %u %u %llx %llx\n", h.api, h.dbl, h.mode, h.crs, (unsigned long long)h.bits, (unsigned long long)h.addr);
	fclose(f);
	printf("%llu %zu %zu %zu\n", (unsigned long long)calls, hot.size(), g_rare.size(), g_konst.size());
	return 0;
}
static int replay(const char* path) {
	FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
	const size_t LN = 1 << 20; char* line = (char*)malloc(LN); string kind, cls; int prop = 0; u64 hash = 0; RunIn in; memset(&in, 0, sizeof in); BulkProf pf; memset(&pf, 0, sizeof pf); vector<Item> items; vector<BulkOp> ops; bool plan = false; u64 lseed = 0, ltotal = 0; u32 lsegs = 0, lnt = 0;
	auto unhex = [](const char* s, void* p, size_t n) { for (size_t i = 0; i < n; ++i) { unsigned v; if (sscanf(s + 2 * i, "%2x", &v) != 1) { fprintf(stderr, "replay file does not match this simulator\n"); exit(2); } ((u8*)p)[i] = u8(v); } };
	while (fgets(line, LN, f)) {
		if (line[0] == '#') { continue; }
		size_t L = strlen(line); while (L && (line[L - 1] == '\n')) line[--L] = 0;
		char* sp = strchr(line, ' '); if (!sp) continue; *sp = 0; char* v = sp + 1;
		string k = line;
		if (k == "kind") kind = v; else if (k == "class") cls = v; else if (k == "prop") prop = atoi(v); else if (k == "hash") hash = strtoull(v, nullptr, 16);
		else if (k == "variant") { if (strcmp(v, sut_variant)) { fprintf(stderr, "replay is for variant %s\n", v); return 2; } }
		else if (k == "plan") { if (strlen(v) != 2 * sizeof in) { fprintf(stderr, "replay file does not match this simulator\n"); return 2; } unhex(v, &in, sizeof in); plan = true; }
		else if (k == "seed") lseed = strtoull(v, nullptr, 10); else if (k == "total") ltotal = strtoull(v, nullptr, 10);
		else if (k == "segs") lsegs = u32(atoi(v)); else if (k == "newthreads") lnt = u32(atoi(v));
		else if (k == "prof") unhex(v, &pf, sizeof pf);
		else if (k == "op") { BulkOp b; unhex(v, &b, sizeof b); ops.push_back(b); }
		else if (k == "item") { unsigned a, b, c; unsigned long long n; unsigned e; if (sscanf(v, "%u %u %u %llu %u", &a, &b, &c, &n, &e) == 5) items.push_back(Item{ u8(a), u8(b), u16(c), e, n }); }
	}
	fclose(f);
	if (kind == "bulk") {
		BulkFail g = bulk_explicit(ops, pf, cls);
		if (g.bad && g.cls == cls) { printf("REPRODUCED %s: %s\n", cls.c_str(), g.text.c_str()); return 1; }
		printf("NOT-REPRODUCED (%s %s)\n", g.cls.c_str(), g.text.c_str()); return 0;
	}
	if (kind == "leak") {
		BK->prof = pf; if (ops.empty() || ops.size() > MAXLONG || lsegs > 64) return 2;
		BK->n = u32(ops.size()); memcpy(BK->op, ops.data(), ops.size() * sizeof(BulkOp));
		BulkFail g = leak_once(prop, lseed, ltotal, lsegs, lnt);
		if (g.bad && g.cls == cls) { printf("REPRODUCED %s: %s\n", cls.c_str(), g.text.c_str()); return 1; }
		printf("NOT-REPRODUCED (%s %s)\n", g.cls.c_str(), g.text.c_str()); return 0;
	}
	if (kind == "long") {
		BK->prof = pf; if (ops.empty() || ops.size() > MAXLONG || !long_wants(ops)) { printf("NOT-REPRODUCED (alone)\n"); return 0; }
		BulkFail g = long_once(lseed, ltotal, 1e9);
		if (g.bad && g.cls == cls && LG->fail_at + 1 == ltotal) { printf("REPRODUCED %s: %s\n", cls.c_str(), g.text.c_str()); return 1; }
		printf("NOT-REPRODUCED (%s %s)\n", g.cls.c_str(), g.text.c_str()); return 0;
	}
	if (!plan) return 2;
	// reference results are recomputed from the code as it is now
	RunIn probe = in; u32 ex = 0; (void)ex; run_refs(probe);
	Viol v; u64 h = 0;
	if (try_case(prop, in, items, cls, &v, &h)) { printf("REPRODUCED %s: %s\n", cls.c_str(), v.text.c_str()); if (h != hash) printf("note: execution hash %016llx, recorded %016llx\n", (unsigned long long)h, (unsigned long long)hash); return h == hash || cls == "hang" ? 1 : 4; }
	printf("NOT-REPRODUCED\n"); return 0;
}
int main(int argc, char** argv) {
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { personality(per | ADDR_NO_RANDOMIZE); setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	for (int i = 2; i < argc; ++i) { char* e = strchr(argv[i], '='); if (e) g_arg[string(argv[i], e - argv[i])] = e + 1; }
	kern_init();
	string cmd = argc > 1 ? argv[1] : "";
	if (cmd == "work") return worker();
	if (cmd == "scout") return scout();
	if (cmd == "replay" && argc > 2) return replay(argv[2]);
	fprintf(stderr, "usage: %s work|scout|replay ...\n", argv[0]); return 2;
}
