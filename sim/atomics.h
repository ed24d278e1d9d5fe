// Probe variants: atomic read-modify-write operations of the library become scheduling points, before and after.
// (Plain loads and stores, also atomic ones, are instrumented by the compiler.)
#pragma once
extern "C" { void sim_rmw_before(const volatile void*); void sim_rmw_after(const volatile void*); }
#define SIM_RMW(p, op) ({ sim_rmw_before((const volatile void*)(p)); auto sim_r_ = op; sim_rmw_after((const volatile void*)(p)); sim_r_; })
#define __atomic_exchange_n(p, ...) SIM_RMW(p, __atomic_exchange_n(p, __VA_ARGS__))
#define __atomic_compare_exchange_n(p, ...) SIM_RMW(p, __atomic_compare_exchange_n(p, __VA_ARGS__))
#define __atomic_compare_exchange(p, ...) SIM_RMW(p, __atomic_compare_exchange(p, __VA_ARGS__))
#define __atomic_fetch_add(p, ...) SIM_RMW(p, __atomic_fetch_add(p, __VA_ARGS__))
#define __atomic_fetch_sub(p, ...) SIM_RMW(p, __atomic_fetch_sub(p, __VA_ARGS__))
#define __atomic_fetch_and(p, ...) SIM_RMW(p, __atomic_fetch_and(p, __VA_ARGS__))
#define __atomic_fetch_or(p, ...) SIM_RMW(p, __atomic_fetch_or(p, __VA_ARGS__))
#define __atomic_fetch_xor(p, ...) SIM_RMW(p, __atomic_fetch_xor(p, __VA_ARGS__))
#define __atomic_add_fetch(p, ...) SIM_RMW(p, __atomic_add_fetch(p, __VA_ARGS__))
#define __atomic_sub_fetch(p, ...) SIM_RMW(p, __atomic_sub_fetch(p, __VA_ARGS__))
#define __atomic_and_fetch(p, ...) SIM_RMW(p, __atomic_and_fetch(p, __VA_ARGS__))
#define __atomic_or_fetch(p, ...) SIM_RMW(p, __atomic_or_fetch(p, __VA_ARGS__))
#define __atomic_xor_fetch(p, ...) SIM_RMW(p, __atomic_xor_fetch(p, __VA_ARGS__))
#define __atomic_test_and_set(p, ...) SIM_RMW(p, __atomic_test_and_set(p, __VA_ARGS__))
#define __sync_fetch_and_add(p, ...) SIM_RMW(p, __sync_fetch_and_add(p, __VA_ARGS__))
#define __sync_bool_compare_and_swap(p, ...) SIM_RMW(p, __sync_bool_compare_and_swap(p, __VA_ARGS__))
#define __sync_val_compare_and_swap(p, ...) SIM_RMW(p, __sync_val_compare_and_swap(p, __VA_ARGS__))
#define __sync_lock_test_and_set(p, ...) SIM_RMW(p, __sync_lock_test_and_set(p, __VA_ARGS__))
#define __atomic_exchange(p, ...) ({ sim_rmw_before((const volatile void*)(p)); __atomic_exchange(p, __VA_ARGS__); sim_rmw_after((const volatile void*)(p)); })
