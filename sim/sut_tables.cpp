// Dispatch from a call descriptor to the wrapper instantiation.
#include "sim.h"
extern "C" {
#define D(f, lo) extern opfn_t const* const sut_rows_##f##_##lo[3 * NCRS];
	D(float, 0) D(float, 3) D(float, 6) D(float, 9) D(double, 0) D(double, 3) D(double, 6) D(double, 9) D(float, 12) D(double, 12)
	opfn_t sut_lookup(const OpDesc* d) {
		static opfn_t const* const* const tab[2][5] = {
			{ sut_rows_float_0, sut_rows_float_3, sut_rows_float_6, sut_rows_float_9, sut_rows_float_12 },
			{ sut_rows_double_0, sut_rows_double_3, sut_rows_double_6, sut_rows_double_9, sut_rows_double_12 } };
		return tab[d->dbl][d->mode / 3][(d->mode % 3) * NCRS + d->crs][d->api];
	}
}
