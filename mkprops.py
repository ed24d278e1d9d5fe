#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
H, F, C = "grisu_exact.h", "fp_to_chars.h", "fp_to_chars/fp_to_chars.cpp"
ENTRY = [{"name": "fp_to_chars / fp_to_chars_n", "where": F}, {"name": "grisu_exact and the rounding policies' delegate()", "where": H},
         {"name": "float_to_chars / double_to_chars, radix_100_table", "where": C}]
TESTS = "The suite calls the library from one thread, in the default environment, one call after another, and looks only at values of a random or fixed sample; "
P = []
def p(id, title, statement, over, text, why, files=(H, F, C), state=(), mech=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

# ---- decided by simulation ------------------------------------------------------------------------------------------
p("C01", "Concurrent conversions never interfere and all complete",
  "Any number of threads may call any public entry points at the same time, on the same or different values, modes and (distinct) buffers, without synchronisation. Under every interleaving each call completes and returns exactly what the same call returns when it is made alone.",
  ["schedules", "inputs", "programs"], "for every set of concurrent calls and every interleaving of their individual memory accesses and instructions",
  TESTS + "no test ever has two calls in progress at once, so no interleaving is reached.",
  state=[("lookup tables", "cache and digit tables shared by all calls; must be immutable", H + " cache_holder; " + C + " radix_100_table")],
  mech=[("all working state is on the caller's stack; tables are constant", H), ("no static or global mutable data", C)],
  observe=["returned decimal triple", "characters written, terminator and returned end pointer"])
p("C02", "Re-entrant: a signal handler may convert while a call is interrupted",
  "A signal handler (or any code that runs on top of an interrupted call on the same thread) may call any public entry point, whatever point the interrupted call had reached and to any nesting depth the stack allows. The nested call completes without waiting for the interrupted one, and both return exactly what they return alone.",
  ["schedules", "inputs", "programs"], "for every interruption point of every call and every nested call made there",
  TESTS + "no test interrupts a call, so no re-entry point is reached.",
  state=[("per-thread state", "there is none; a thread-local scratch area or lock would be visible here", H + ", " + C)],
  mech=[("no locks, no thread-local or static scratch space", C), ("results are built in registers, stack and the caller's buffer only", F)],
  observe=["results of both calls", "completion of the nested call"])
p("C03", "Abandoning a call at any instant leaves no residue",
  "A call may be cut off at any instant: by longjmp or asynchronous cancellation out of it, by its thread vanishing, or by the process forking in another thread while it runs. Afterwards every later call, on any surviving thread, completes within a bounded number of its own steps and returns exactly what it returns alone.",
  ["crash_points", "schedules", "histories", "inputs"], "for every abandonment point of every call and every history of later calls",
  TESTS + "no test cuts a call off, so no crash point is reached.",
  state=[("in-progress markers", "there are none; a lock, busy flag or half-updated memo would survive the abandoned call", H + ", " + C)],
  mech=[("no state outlives a call", H)], observe=["results and completion of the calls made afterwards"])
p("C04", "Every call makes progress on its own while other callers are stalled",
  "If other threads are suspended forever at arbitrary points inside the library, every remaining call still completes within a bounded number of its own steps and with the right result. The suspended calls also complete correctly as soon as they are resumed.",
  ["schedules", "fault_sequences", "inputs"], "for every set of suspended callers and every set of suspension points",
  TESTS + "a test cannot suspend a thread inside a call, let alone at each point, so waiting on another caller never shows.",
  state=[("locks, once-flags, spin variables", "there are none", H + ", " + C)],
  mech=[("no synchronisation of any kind is used; constant tables need no lazy initialisation", H)], observe=["steps taken by each call until it returns", "results"])
p("C05", "Only the bytes of the own result are ever written",
  "At every instant of a call, and not only when it has returned, the only caller-visible memory it has written is the destination range from the start of the buffer to the returned end (plus exactly one terminator for the terminating variant). Bytes before and after, which may belong to another thread, be unmapped or change during the call, are never written, not even with the value they had, so a destination of exactly the result's size is sufficient.",
  ["inputs", "schedules", "programs"], "for every value, mode and placement of the destination (packed against other objects or against either end of a mapped page), at every instant of the call, with the neighbouring bytes changing at any time",
  TESTS + "the tests write into a roomy buffer of their own and look only at the text afterwards: stray, transient or restored writes next to the result are invisible to them.",
  files=(F, C, H), state=[("buffer cursor", "current write position inside the caller's buffer", C + " fp_to_chars_impl")],
  mech=[("digits are written backwards from the known length, two characters at a time", C), ("only fp_to_chars stores a terminator", F)],
  observe=["every store to caller-visible memory", "contents of neighbouring bytes and guard pages"])
p("C06", "The previous contents of the destination never matter",
  "What a call returns and writes does not depend on what the destination held before the call. If the destination is overwritten by someone else while the call is in progress, the returned end position and the bounds of what is written are still those of the undisturbed call.",
  ["inputs", "fault_sequences", "schedules"], "for every prior content of the buffer and every mid-call overwrite of any of its bytes",
  TESTS + "the tests reuse one buffer with whatever it held last and never disturb it during a call.",
  files=(F, C), mech=[("the buffer is write-only for the library; nothing is read back", C)], observe=["written text and returned end for differing prior contents", "returned end and stores while bytes are tampered with"])
p("C07", "Results do not depend on the floating-point environment",
  "Results are the same whatever rounding direction, denormal handling (DAZ/FTZ) or extended-precision setting the calling thread has, and also if these change while the call is in progress.",
  ["configurations", "inputs", "fault_sequences"], "for every floating-point control setting, every change of it at any instant of the call, and every value",
  TESTS + "all of them run in the default floating-point environment.",
  mech=[("the input is taken apart as bits; all arithmetic is on integers", H + " get_bit_representation, grisu_exact_impl")],
  observe=["results under different MXCSR / x87 control words"])
p("C08", "A call leaves the caller's execution environment as it found it",
  "On return from any call the floating-point control and sticky exception flags, the x87 stack, the direction flag, errno and the process locale are exactly as they were on entry. No call raises a floating-point trap, even when the caller has unmasked all floating-point exceptions.",
  ["configurations", "inputs", "histories"], "for every environment a caller may have on entry and every value, including signalling NaNs and subnormals",
  TESTS + "no test looks at flags, control words, errno or the locale, or unmasks exceptions.",
  mech=[("integer-only computation", H), ("no library or system calls except fixed-size copies", F + ", " + C)],
  observe=["MXCSR, x87 control/status/tag words, EFLAGS.DF, errno, locale on return", "SIGFPE"])
p("C09", "Conversions need no resource that can run out",
  "Every call succeeds with its normal result when every memory allocation and every system call fails, from the first or from any later instant, and with only 8 KiB of stack. It throws nothing of its own and terminates nothing.",
  ["fault_sequences", "inputs"], "for every subset of failing allocations and system calls and every value and mode",
  TESTS + "allocations and system calls always succeed there and stacks are large, so no failure path is reached.",
  mech=[("no heap use, no system calls, small fixed-size stack frames", H + ", " + C)], observe=["results, exceptions and crashes with failing malloc/syscalls and a guarded 8 KiB stack"])
p("C10", "Usable at any point of process and thread start-up and shutdown",
  "Calls made before, between, during or after the running of the library's own static initialisers and destructors, and before, during or after the thread-exit destructors of the calling thread, from any thread, return exactly what they return in a fully started process.",
  ["schedules", "programs", "configurations"], "for every position of a call relative to (and concurrently with) static construction and destruction and thread exit",
  TESTS + "every test calls the library from main(), after all static initialisation and before all destruction.",
  state=[("tables", "constant-initialised; never constructed or destroyed at run time", H + " cache_holder; " + C + " radix_100_table")],
  mech=[("constexpr tables in read-only data", H + ", " + C)], observe=["results of calls placed before/after each initialiser and destructor"])
p("C11", "Results do not depend on ambient process configuration",
  "Locale settings (C and C++, including decimal comma and digit grouping), environment variables, the files that exist and what is in them, the identity of user, host and process, resource limits, the clocks and the cycle counter never influence a result, and neither do changes of them before, between or during calls.",
  ["configurations", "inputs", "fault_sequences"], "for every locale, clock value, environment, file system and identity and every change of them at any instant",
  TESTS + "they run in the C locale and never vary the ambient configuration.",
  mech=[("digits, '.', 'E' and signs come from constant tables", C), ("nothing ambient is consulted", H)], observe=["results under changing locales, clocks and environment variables"])
p("C12", "The result of a call does not depend on earlier calls",
  "Whatever calls were made before it, with whatever values, types, modes and outcomes, on the same or other threads, in whatever order and however many, a call returns exactly what it returns as the first call of a fresh process.",
  ["histories", "inputs", "programs"], "for every history of earlier calls and every next call",
  TESTS + "each sampled value is converted once, in one order, and compared only within that history.",
  state=[("memoised or adaptive state", "there is none", H + ", " + C)], mech=[("functions are pure in their arguments", H)], observe=["results of the same call in different histories"])
p("C13", "User callbacks may throw, yield, re-enter or never return",
  "A user-supplied case handler is called exactly once for every non-finite input, and a user-supplied rounding policy or correct-rounding search exactly once for every finite non-zero input converted, each with the exact bits of the input and never for another call's input. Whatever the callback does - throw (the exception reaches the caller unchanged), call the library again, let other threads run, return on another thread than it was called on, or abandon the call - all other calls and all later calls behave as they do alone. That includes calls made by destructors and handlers of the caller while an exception travels up the stack or is being handled.",
  ["schedules", "programs", "inputs"], "for every callback behaviour at its invocation point, combined with every interleaving and every input",
  TESTS + "no test supplies a callback of its own that throws, re-enters or yields.",
  files=(H, F), mech=[("case_handler(br) is invoked before the rounding policy's delegate()", H + " grisu_exact"), ("policies are forwarded, not stored", F)],
  observe=["callback invocations and the bits they were shown", "propagated exceptions", "results of all other calls"])

p("C26", "Results do not depend on where things lie in memory or which thread calls",
  "Results are the same for every address and alignment of the destination (across page boundaries, at the first or last bytes of a mapping), every stack position and size, and every calling thread.",
  ["configurations", "inputs"], "for every placement of destinations, stacks and thread-local storage and every value and mode",
  TESTS + "their one buffer always lies at the same place of the one thread's stack.",
  mech=[("digits are placed with fixed-size copies that need no alignment", C)], observe=["returned decimal triple", "characters written, terminator and returned end pointer", "page faults"])

p("C27", "Calls leave nothing behind",
  "When a call has returned, or has been left by an exception of a caller's callback, everything it took on the way has been given back: memory, mappings, files, exit and thread-exit handlers, thread-specific-data keys, copies of the caller's callback objects. However often calls are made, by however many threads that come and go, interrupted, failing for lack of resources in the middle or throwing, what the process holds does not grow without bound.",
  ["histories", "fault_sequences", "schedules", "programs", "inputs"], "for every history of calls of any length, with every sequence of exceptions, failing allocations and system calls, signal calls and thread exits in it",
  TESTS + "no test looks at what is still held afterwards, lets a callback throw, an allocation fail in mid-call, or threads come and go.",
  state=[("heap, mappings, files, handlers, keys", "the library owns none of them", H + ", " + F + ", " + C)],
  mech=[("working state is automatic; policies and handlers are forwarded, not copied for keeping", H + ", " + F)],
  observe=["allocated blocks and bytes, mappings, files, exit handlers, keys after repeated histories", "number of live copies of callback objects on return"])
p("C28", "Calls have no side effects on the process",
  "Apart from its result, no call changes anything that belongs to the application or the process, not even for the time of the call: it writes to no file, terminal or standard stream and changes no stream's state; it consumes no numbers of rand, random or drand48; it does not touch the environment variables, the C, C++ or per-thread locale, signal dispositions or masks, the thread's cancelability, the terminate and new handlers, strtok's hidden position; it starts no thread or process and sends no signal. This holds whatever happens during the call: failing allocations, exceptions of callbacks, signals, unusual locales and floating-point environments.",
  ["fault_sequences", "schedules", "configurations", "inputs", "histories"], "for every call, every fault that can occur during it and every history before it",
  TESTS + "no test observes anything but the returned value, and none makes anything fail.",
  state=[("process-wide state", "none is used", H + ", " + F + ", " + C)], mech=[("no library or system calls except fixed-size copies", F + ", " + C)],
  observe=["every system call made", "every use of application-wide libc/libstdc++ state", "signal mask, locale, stream state on return"])
p("C29", "The cost of a call does not grow with use",
  "The work a call does is bounded independently of the calls made before it, of the threads that have come and gone, and of the calls that were cut off or threw: after millions of calls the same calls take no more steps of their own than at the beginning.",
  ["histories", "crash_points", "schedules", "programs", "inputs"], "for every history of earlier calls, thread exits and abandoned calls, and every next call",
  TESTS + "no test counts the steps of a call, and none has a history of threads, exceptions or abandoned calls.",
  state=[("lists, pools, tables of earlier calls or threads", "there are none", H + ", " + C)], mech=[("the length of the computation depends on the input alone", H + " grisu_exact_impl; " + C + " fp_to_chars_impl")],
  observe=["steps (accesses and branches, or instructions) of calls early and late in a history"])

# ---- pure functions of the input: not simulation targets ---------------------------------------------------------------
NA = "a pure function of one input: no schedule, clock, fault, I/O or second party takes part, so there is nothing for a simulated schedule or fault to decide; "
N = {}
def n(id, title, statement, text, why, mech, reason, files=(H, F, C)):
    p(id, title, statement, ["inputs"], text, why, files=files, mech=mech); N[id] = NA + reason
n("C14", "Every finite value survives a round trip through its decimal form",
  "For every finite float and double and every nearest rounding mode, reading the produced decimal back with that rounding mode yields the identical value, including the sign of zero. For directed modes the decimal reads back to the same value with the corresponding directed reading.",
  "for all 2^32 float and 2^64 double bit patterns and every rounding mode", "Uniform random samples reach a vanishing part of the 2^64 doubles and mostly one mode.",
  [("compute / compute_left_closed_directed / compute_right_closed_directed", H)], "deciding it means comparing with an exact decimal reader over inputs, which is input generation or proof.")
n("C15", "The decimal significand is the shortest possible",
  "No decimal with fewer significant digits lies in the rounding interval of the input for the selected rounding mode.",
  "for all finite non-zero inputs and all rounding modes", "Compared with another implementation on random samples for the default mode only.",
  [("increasing_search / decreasing search", H)], "it needs an exact interval oracle over inputs.")
n("C16", "Among the shortest decimals the correctly rounded one is chosen",
  "When several shortest decimals exist, the one closest to the exact value is produced, ties being broken as the selected correct-rounding policy says.",
  "for all finite non-zero inputs, nearest modes and the four tie policies", "Random samples almost never hit exact ties.",
  [("grisu_exact_correct_rounding", H)], "it needs an exact closeness oracle over inputs.")
n("C17", "Rounding modes use exactly the interval they document",
  "Each of the twelve rounding policies yields a decimal inside the interval of reals that its reader would map to the input, with end points included exactly when the policy says so; directed policies never cross the input in the forbidden direction.",
  "for all finite non-zero inputs (both signs) and all policies", "Interval end points are hit by few values; most modes are barely exercised.",
  [("grisu_exact_rounding_modes", H)], "it needs an exact interval oracle over inputs.")
n("C18", "Static-boundary policies agree with their dynamic counterparts",
  "The static-boundary policies produce exactly the same decimal as the corresponding ordinary nearest policies for every input.",
  "for all finite inputs", "Only samples are compared.", [("*_static_boundary", H)], "it is an equality of two pure functions.")
n("C19", "Skipping correct rounding still gives a shortest, round-tripping decimal",
  "With the do_not_care policy the produced decimal is still shortest and inside the rounding interval.",
  "for all finite inputs and nearest modes", "Only samples are compared.", [("do_not_care", H)], "it needs an exact interval oracle over inputs.")
n("C20", "Text output follows one fixed grammar",
  "The text is an optional '-', one digit, optionally '.' and further digits without trailing zeros, 'E' and a canonical exponent; zeros are '0E0' or '-0E0', infinities 'Infinity' or '-Infinity', NaNs 'NaN'; at most 24 characters for double and 15 for float.",
  "for all bit patterns and modes", "Samples rarely hit special values, extreme exponents and all digit counts.",
  [("fp_to_chars_impl", C), ("fp_to_chars_n", F)], "it is a predicate on the output of a single call.", (F, C))
n("C21", "Text and decimal triple describe the same number",
  "The characters written for a value denote exactly the significand, exponent and sign that the decimal interface returns for it with the same policies; signed and unsigned returns agree.",
  "for all finite inputs and policies", "Not compared in the tests beyond samples.", [("fp_to_chars_n calls grisu_exact", F)], "it is an equality of two pure functions.", (F, C, H))
n("C22", "Bit-level classification is exact",
  "Finite, zero, subnormal, sign, infinity, NaN kinds and NaN payload are reported exactly as the IEEE-754 encoding defines, and the value rebuilt from its bits is identical.",
  "for all bit patterns", "Only incidentally exercised.", [("bit_representation_t", H)], "it is a predicate on one bit pattern.", (H,))
n("C23", "Integer logarithm approximations and power-of-ten tables are exact",
  "Every floor/ceil logarithm helper returns the mathematically exact value on its whole documented domain and every tabulated power of ten is the correctly rounded-down value.",
  "for all arguments in the documented domains and all table entries", "The log tests cover ranges, the tables are only regenerated, not proved.",
  [("log namespace, cache_holder tables", H)], "these are constants and pure integer functions.", (H,))
n("C24", "All target-specific code paths give identical results",
  "The 64-bit intrinsic, 128-bit integer, portable 32-bit and compiler-specific branches return identical results for every input.",
  "for all inputs and all supported build configurations", "Each test binary exercises one branch on samples.",
  [("umul / conditional compilation", H)], "the configurations are chosen at build time; comparing them is differential testing over inputs.", (H,))
n("C25", "Internal assertions never fire for inputs inside the documented domain",
  "No internal assertion fails for any finite value with any combination of policies, nor for any bit pattern through the text interface.",
  "for all inputs and policies", "Only samples run with assertions enabled.", [("assert()s", H + ", " + C)], "it is a predicate on single inputs.")
def main():
    d = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    tech = "deterministic simulation with fault injection: "
    T = {"C01": "seeded instruction- and access-level thread schedules", "C02": "signal-handler re-entry injected at arbitrary instants",
         "C03": "kills, thread deaths and forks injected mid-call", "C04": "callers stalled forever mid-call, bounded progress of the rest",
         "C05": "owner map checked at every store, neighbours written concurrently, guard pages", "C06": "prior contents and mid-call tampering of the destination",
         "C07": "FP-environment settings and mid-call flips", "C08": "random entry environments, comparison on return", "C09": "failing allocations and system calls, 8 KiB stacks",
         "C10": "static construction/destruction as schedulable operations", "C11": "locale, clock, TSC, environment, file and identity faults", "C12": "seeded call histories against the call made alone", "C13": "throwing, yielding, migrating, re-entering, abandoning callbacks", "C26": "address-space layout randomised per call, guard pages",
         "C27": "histories with signals, exceptions, failing allocations and ending threads gone through repeatedly, resources in use compared", "C28": "every system call and use of application-wide state inspected under injected faults",
         "C29": "histories with kills, exceptions and ending threads gone through repeatedly, steps compared"}
    note = ("Seeded sampling of executions of the real code (compiled from the working tree, four build variants in quick, six in thorough), each a pure function of its seed and replayable; oracle: the same call executed alone in a pristine process image"
            " plus the property's own invariants. Memory is sequentially consistent in the probe variants and x86-TSO (store buffers) in the insn variants; says nothing about schedules, faults or inputs not drawn, nor about whether the alone result is mathematically right.")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                          technique=tech + T[i], level="exploration", level_note=note) for i in T],
             not_applicable=[dict(property=i, reason=r) for i, r in N.items()],
             notes="No hooks in /repo: all seams are at link level, in the compiler's instrumentation and in the simulated operating system.")
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    assert {x["id"] for x in P} == set(T) | set(N)
    with open(os.path.join(d, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
