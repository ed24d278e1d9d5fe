// Compiled several times: -DSIM_FLOAT=float|double -DSIM_LO=<first mode> (three modes each)
#include "sut_impl.h"
#define CAT_(a,b,c) a##b##_##c
#define CAT(a,b,c) CAT_(a,b,c)
extern "C" { extern opfn_t const* const CAT(sut_rows_, SIM_FLOAT, SIM_LO)[3 * NCRS]; }
opfn_t const* const CAT(sut_rows_, SIM_FLOAT, SIM_LO)[3 * NCRS] = {
#define R(m, c) simsut::Rows<SIM_FLOAT, m>::r[c].f
#define RR(m) R(m,0), R(m,1), R(m,2), R(m,3), R(m,4)
	RR(SIM_LO), RR(SIM_LO + 1), RR(SIM_LO + 2 < NMODE ? SIM_LO + 2 : NMODE - 1)
};
