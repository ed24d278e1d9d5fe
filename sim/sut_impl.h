// Wrappers around every public entry point of the library. Compiled (with the variant's flags)
// straight from /repo's sources. One instantiation per (Float, rounding mode, rounding search).
#pragma once
#include <algorithm>
#include <bitset>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include "fp_to_chars.h"
#include "sim.h"

namespace simsut {
	namespace rm = jkj::grisu_exact_rounding_modes;
	namespace cr = jkj::grisu_exact_correct_rounding;

	template <int I> struct mode_t_;
#define SIM_M(i, n) template <> struct mode_t_<i> { using type = rm::n; };
	SIM_M(0, nearest_to_even) SIM_M(1, nearest_to_odd) SIM_M(2, nearest_toward_plus_infinity)
	SIM_M(3, nearest_toward_minus_infinity) SIM_M(4, nearest_toward_zero) SIM_M(5, nearest_away_from_zero)
	SIM_M(6, nearest_to_even_static_boundary) SIM_M(7, nearest_to_odd_static_boundary)
	SIM_M(8, toward_plus_infinity) SIM_M(9, toward_minus_infinity) SIM_M(10, toward_zero) SIM_M(11, away_from_zero)
	SIM_M(12, nearest_toward_plus_infinity_static_boundary) SIM_M(13, nearest_toward_minus_infinity_static_boundary)
#undef SIM_M
	template <int I> struct crs_t_;
	template <> struct crs_t_<0> { using type = cr::tie_to_even; };
	template <> struct crs_t_<1> { using type = cr::tie_to_odd; };
	template <> struct crs_t_<2> { using type = cr::tie_to_up; };
	template <> struct crs_t_<3> { using type = cr::tie_to_down; };
	template <> struct crs_t_<4> { using type = cr::do_not_care; };

	template <class F> inline F arg(OpDesc const* d) {
		F x;
		if constexpr (sizeof(F) == 4) { u32 b = u32(d->bits); __builtin_memcpy(&x, &b, 4); }
		else { u64 b = d->bits; __builtin_memcpy(&x, &b, 8); }
		return x;
	}

	// what user callbacks carry with them: copying and destroying it means something
	struct Ballast {
		OpDesc* d; u64 w[6];
		explicit Ballast(OpDesc* o) : d(o) { for (u64 i = 0; i < 5; ++i) w[i] = (i + 1) * 0x9e3779b97f4a7c15ull; w[5] = reinterpret_cast<std::uintptr_t>(this); ++d->lives; }
		Ballast(Ballast const& o) : d(o.d) { take(o); ++d->lives; }
		Ballast& operator=(Ballast const& o) { take(o); return *this; }
		~Ballast() { for (u64 volatile* p = w; p != w + 6; ++p) *p = 0xdddddddddddddddd; --d->lives; }
		void take(Ballast const& o) { for (u64 i = 0; i < 5; ++i) w[i] = o.w[i]; w[5] = o.w[5] - reinterpret_cast<std::uintptr_t>(&o) + reinterpret_cast<std::uintptr_t>(this); }
		u64 bad() const { u64 b = w[5] ^ reinterpret_cast<std::uintptr_t>(this); for (u64 i = 0; i < 5; ++i) b |= w[i] ^ (i + 1) * 0x9e3779b97f4a7c15ull; return b ? ~u64(0) : 0; }
	};

	// user callbacks ------------------------------------------------------------------
	struct Handler {
		OpDesc* d; Ballast b{ d };
		template <class F> void operator()(jkj::bit_representation_t<F> br) const {
			++d->hcalls; d->hbits = br.f ^ b.bad();
			sim_hook(d);
		}
	};
	template <class M> struct Policy {
		OpDesc* d; Ballast b{ d };
		template <bool return_sign, class F, class C>
		jkj::fp_t<F, return_sign> delegate(jkj::bit_representation_t<F> br, C&& crs) const {
			++d->hcalls; d->hbits = br.f ^ b.bad();
			sim_hook(d);
			return M{}.template delegate<return_sign>(br, std::forward<C>(crs));
		}
	};

#define SIM_TRY d->calling = 1; try {
#define SIM_END } catch (SimExc& e) { d->threw = e.id == u64(reinterpret_cast<std::uintptr_t>(d)) ? 1 : 2; } \
		catch (SimRt& e) { d->threw = e.id == u64(reinterpret_cast<std::uintptr_t>(d)) ? 1 : 2; } \
		catch (SimBad& e) { d->threw = e.id == u64(reinterpret_cast<std::uintptr_t>(d)) ? 1 : 2; } \
		catch (u64 e) { d->threw = e == u64(reinterpret_cast<std::uintptr_t>(d)) ? 1 : 2; } \
		catch (...) { d->threw = 2; } d->calling = 0;

	template <class F, class M, class C> void op_chars(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			if constexpr (std::is_same_v<M, rm::nearest_to_even> && std::is_same_v<C, cr::tie_to_even>)
				d->end = jkj::fp_to_chars(x, d->buf);
			else d->end = jkj::fp_to_chars(x, d->buf, M{}, C{});
		SIM_END
	}
	template <class F, class M, class C> void op_chars_n(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			if constexpr (std::is_same_v<M, rm::nearest_to_even> && std::is_same_v<C, cr::tie_to_even>)
				d->end = jkj::fp_to_chars_n(x, d->buf);
			else d->end = jkj::fp_to_chars_n(x, d->buf, M{}, C{});
		SIM_END
	}
	template <class F, class M, class C> void op_signed(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			auto v = jkj::grisu_exact<true>(x, M{}, C{});
			d->sig = v.significand; d->exp = v.exponent; d->neg = v.is_negative;
		SIM_END
	}
	template <class F, class M, class C> void op_unsigned(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			auto v = jkj::grisu_exact<false>(x, M{}, C{});
			d->sig = v.significand; d->exp = v.exponent;
		SIM_END
	}
	template <class F> void op_class(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			auto br = jkj::get_bit_representation(x);
			u64 c = 0;
			c |= u64(br.is_finite()) << 0; c |= u64(br.is_nonzero()) << 1; c |= u64(br.is_subnormal()) << 2;
			c |= u64(br.is_negative()) << 3; c |= u64(br.is_positive()) << 4;
			c |= u64(br.is_positive_infinity()) << 5; c |= u64(br.is_negative_infinity()) << 6;
			c |= u64(br.is_infinity()) << 7; c |= u64(br.is_nan()) << 8;
			c |= u64(br.is_quiet_nan()) << 9; c |= u64(br.is_signaling_nan()) << 10;
			c |= u64(br.extract_exponent_bits()) << 16;
			d->cls = c;
			d->sig = br.extract_significand_bits();
			d->exp = i64(br.get_nan_payload().to_ullong());
			F y = br.as_ieee754();
			if constexpr (sizeof(F) == 4) { u32 b; __builtin_memcpy(&b, &y, 4); d->neg = b; }
			else { u64 b; __builtin_memcpy(&b, &y, 8); d->neg = b; }
		SIM_END
	}
	template <class F, class M, class C> void op_handler(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			auto v = jkj::grisu_exact<true>(x, M{}, C{}, Handler{ d });
			d->sig = v.significand; d->exp = v.exponent; d->neg = v.is_negative;
		SIM_END
	}
	template <class F, class M, class C> void op_policy(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			d->end = jkj::fp_to_chars_n(x, d->buf, Policy<M>{ d }, C{});
		SIM_END
	}

	// a user-supplied correct-rounding search
	template <class C> struct Search {
		static constexpr auto tag = C::tag;
		OpDesc* d; Ballast b{ d };
		template <bool return_sign, class F, class I>
		jkj::fp_t<F, return_sign> delegate(jkj::bit_representation_t<F> br, I&& i) const {
			++d->hcalls; d->hbits = br.f ^ b.bad();
			sim_hook(d);
			return C{}.template delegate<return_sign>(br, std::forward<I>(i));
		}
	};
	template <class F, class M, class C> void op_search(OpDesc* d) {
		F x = arg<F>(d);
		SIM_TRY
			d->end = jkj::fp_to_chars_n(x, d->buf, M{}, Search<C>{ d });
		SIM_END
	}

	// A policy that keeps non-finite inputs away from the algorithm, for handlers that return
	template <class M> struct Guarded {
		template <bool return_sign, class F, class C>
		jkj::fp_t<F, return_sign> delegate(jkj::bit_representation_t<F> br, C&& crs) const {
			if (!br.is_finite()) { jkj::fp_t<F, return_sign> v{}; v.significand = 77; return v; }
			return M{}.template delegate<return_sign>(br, std::forward<C>(crs));
		}
	};
	// same, unsigned return and everything passed as named objects
	template <class F, class M, class C> void op_handler_u(OpDesc* d) {
		F x = arg<F>(d);
		Guarded<M> m{}; C c{}; Handler h{ d };
		SIM_TRY
			auto v = jkj::grisu_exact<false>(x, m, c, h);
			d->sig = v.significand; d->exp = v.exponent;
		SIM_END
	}
	template <class F, class M, class C> void op_policy_s(OpDesc* d) {
		F x = arg<F>(d);
		Policy<M> const p{ d }; C const c{};
		SIM_TRY
			auto v = jkj::grisu_exact(x, p, c);
			d->sig = v.significand; d->exp = v.exponent; d->neg = v.is_negative;
		SIM_END
	}

	struct Row { opfn_t f[NAPI]; };
	template <class F, int M, int C> constexpr Row row() {
		using MT = typename mode_t_<M>::type; using CT = typename crs_t_<C>::type;
		return Row{ { op_chars<F, MT, CT>, op_chars_n<F, MT, CT>, op_signed<F, MT, CT>, op_unsigned<F, MT, CT>,
			op_class<F>, op_handler<F, MT, CT>, op_policy<F, MT, CT>,
			op_handler_u<F, MT, CT>, op_policy_s<F, MT, CT>, op_search<F, MT, CT> } };
	}
	template <class F, int M> struct Rows {
		static constexpr Row r[NCRS] = { row<F, M, 0>(), row<F, M, 1>(), row<F, M, 2>(), row<F, M, 3>(), row<F, M, 4>() };
	};
}
