// Driver roots: the multiplication drivers instantiated with a row algorithm that only has a contract.
// Never executed; the vp_ functions are interpreted by the analysis.
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <functional>
#include <numeric>
#include <tuple>
#include "CSR.h"
#include "CSC.h"
#include "utility.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#ifndef VP_IT
#define VP_IT int
#endif
#ifndef VP_NT
#define VP_NT double
#endif
using IT = VP_IT;
using NT = VP_NT;
extern "C" {
void vp_ctor(void *alg, IT cols, IT maxA, IT maxM, IT maxF);
void vp_dtor(void *alg);
size_t vp_memsize(void *alg);
size_t vp_memalign(void *alg);
void vp_setbuffer(void *acc, std::byte *buf, size_t size, size_t dirty);
size_t vp_release(void *acc);
void vp_numeric(void *alg, const void *A, const void *B, const void *M, IT row, IT **cols, NT **vals, IT *hint);
void vp_symbolic(void *alg, const void *A, const void *B, const void *M, IT row, IT *nvals, IT *hint);
}
struct VpAcc {
    char tag;
    void setBuffer(std::byte *b, size_t n, const size_t dirty) { vp_setbuffer(this, b, n, dirty); }
    size_t releaseBuffer() { return vp_release(this); }
};
template<bool Compl, bool MA, bool MM, bool MF>
struct Stub {
    template<class I, class N>
    struct Impl {
        inline const static bool COMPLEMENTED = Compl;
        inline const static bool CALC_MAX_ROW_SIZE_A = MA;
        inline const static bool CALC_MAX_ROW_SIZE_M = MM;
        inline const static bool CALC_MAX_ROW_FLOPS = MF;
        VpAcc sym, num;
        Impl(I c, I a, I m, I f) { vp_ctor(this, c, a, m, f); }
        std::tuple<size_t, size_t> getMemoryRequirement() { return {vp_memsize(this), vp_memalign(this)}; }
        VpAcc &getSymbolicAccumulator() { return sym; }
        VpAcc &getNumericAccumulator() { return num; }
        template<class Mul, class Add>
        void numericRow(const CSR<I, N> &A, const CSR<I, N> &B, const CSR<I, N> &M, Mul, Add, I row, I *&c, N *&v, I &hint) {
            vp_numeric(this, &A, &B, &M, row, &c, &v, &hint);
        }
        void symbolicRow(const CSR<I, N> &A, const CSR<I, N> &B, const CSR<I, N> &M, I row, I *nv, I &hint) {
            vp_symbolic(this, &A, &B, &M, row, nv, &hint);
        }
    };
};
template<class I, class N, bool Compl>
struct StubInner {
    template<class Mul, class Add>
    void numericRow(const CSR<I, N> &A, const CSC<I, N> &B, const CSR<I, N> &M, Mul, Add, I row, I *&c, N *&v) {
        vp_numeric(nullptr, &A, &B, &M, row, &c, &v, nullptr);
    }
    void symbolicRow(const CSR<I, N> &A, const CSC<I, N> &B, const CSR<I, N> &M, I row, I *nv) {
        vp_symbolic(nullptr, &A, &B, &M, row, nv, nullptr);
    }
};
using MulOp = std::multiplies<NT>;
using AddOp = std::plus<NT>;
#define PUSH(NAME, ALG)                                                                                            \
    void one_##NAME(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, unsigned t) { \
        MaskedSpGEMM1p<ALG::template Impl>(A, B, C, M, MulOp{}, AddOp{}, t);                                       \
    }                                                                                                              \
    void two_##NAME(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, unsigned t) { \
        MaskedSpGEMM2p<ALG::template Impl>(A, B, C, M, MulOp{}, AddOp{}, t);                                       \
    }
using StubPlain = Stub<false, true, true, true>;
using StubCompl = Stub<true, true, true, true>;
extern "C" {
PUSH(push, StubPlain)
PUSH(compl, StubCompl)
void one_inner(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, unsigned t) {
    MaskedSpGEMM1p<StubInner>(A, B, C, M, MulOp{}, AddOp{}, t);
}
void two_inner(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, unsigned t) {
    MaskedSpGEMM2p<StubInner>(A, B, C, M, MulOp{}, AddOp{}, t);
}
void one_poly(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, unsigned t) {
    MaskedSpGEMM1p(A, B, C, M, MulOp{}, AddOp{}, t);
}
void scan_ex(const IT *src, size_t n, IT *dst, int t) { exclusiveScan(src, n, dst, t); }
void scan_in(const IT *src, size_t n, IT *dst, int t) { inclusiveScan(src, n, dst, t); }
IT est_flops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *f, int t) { return calculateFlops(A, B, f, t); }
IT est_mflops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *f, int t) { return calculateFlops(A, B, M, f, t); }
IT est_work(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, IT *f, int t) { return calculateWork(A, B, M, f, t); }
IT est_ops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int t) { return calculateMultOps(A, B, t); }
using R_ = CSR<IT, NT>;
using C_ = CSC<IT, NT>;
extern const size_t vp_csr[] = {sizeof(R_), offsetof(R_, rows), offsetof(R_, cols), offsetof(R_, nnz), offsetof(R_, rowptr), offsetof(R_, colids), offsetof(R_, values), offsetof(R_, zerobased)};
extern const size_t vp_csc[] = {sizeof(C_), offsetof(C_, rows), offsetof(C_, cols), offsetof(C_, nnz), offsetof(C_, colptr), offsetof(C_, rowids), offsetof(C_, values), offsetof(C_, totalcols)};
}
