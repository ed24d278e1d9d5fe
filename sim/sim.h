// Shared definitions: simulator kernel <-> system-under-test wrappers <-> driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <new>
#include <stdexcept>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef int32_t i32;

enum Api : u8 { A_CHARS = 0, A_CHARS_N, A_SIGNED, A_UNSIGNED, A_CLASS, A_HANDLER, A_POLICY, A_HANDLER_U, A_POLICY_S, A_SEARCH, NAPI,
	A_INIT = 100, A_FINI = 101, A_TEXIT = 102 };
constexpr int NMODE = 14, NCRS = 5;
inline bool is_text(int a) { return a == A_CHARS || a == A_CHARS_N || a == A_POLICY || a == A_SEARCH; }
inline bool is_handler(int a) { return a == A_HANDLER || a == A_HANDLER_U; }
inline bool is_policy(int a) { return a == A_POLICY || a == A_POLICY_S || a == A_SEARCH; }
inline bool has_cb(int a) { return is_handler(a) || is_policy(a); }

// What a user-supplied callback (case handler / rounding policy) does when the library calls it.
enum Beh : u8 { B_NONE = 0, B_YIELD, B_THROW, B_REENTER, B_ABANDON, NBEH };

// One call into the library: arguments in, observable results out.
struct OpDesc {
	u8 api, dbl, mode, crs, beh, nested, pad[2];
	u64 bits;
	char* buf;
	OpDesc* re;           // re-entrant call made by the callback
	// results
	u64 sig; i64 exp; u64 neg; char* end; u64 cls;
	u64 threw;            // 0 none, 1 the callback's own exception (identity preserved), 2 anything else
	u64 hcalls, hbits;    // callback invocations and the bits it was shown
	u64 calling;          // set while inside the library (cleared on return)
	i64 lives;            // callback objects (and copies the library made of them) that exist
};

typedef void (*opfn_t)(OpDesc*);

// user-level exceptions thrown by callbacks: unrelated to anything, or derived from what library code may know
struct SimExc { u64 id; };
struct SimRt : std::runtime_error { u64 id; explicit SimRt(u64 i) : std::runtime_error("sim"), id(i) {} };
struct SimBad : std::bad_alloc { u64 id; explicit SimBad(u64 i) : id(i) {} };
inline u32 exc_kind(u64 bits, u32 api) { u64 h = (bits ^ api) * 0x9e3779b97f4a7c15ull; return u32(h >> 61); }

extern "C" {
	void sim_hook(OpDesc* d);     // called from user callbacks; hypercall into the scheduler
	opfn_t sut_lookup(const OpDesc* d);
}
