// Analysis roots: one entry point per (row algorithm, phase). Never executed: this
// file only makes the templates concrete so that the compiler emits their IR.
#include <cstdint>
#include <cstddef>
#include <functional>
#include "CSR.h"
#include "CSC.h"
#include "utility.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"

#ifndef VP_IT
#define VP_IT int
#endif
#ifndef VP_NT
#define VP_NT double
#endif
using IT = VP_IT;
using NT = VP_NT;
using Csr = CSR<IT, NT>;
using Csc = CSC<IT, NT>;

extern "C" {
bool vp_more();
IT vp_row_begin();
void vp_row_end_numeric(IT *col, NT *val);
void vp_row_end_symbolic(IT *rowNvals);
NT vp_mul(NT, NT);
NT vp_add(NT, NT);
IT vp_size();
std::byte *vp_buffer(size_t);

// Object layout, as the compiler sees it.
extern const size_t vp_off_csr[] = {offsetof(Csr, rows), offsetof(Csr, cols), offsetof(Csr, nnz),
                                    offsetof(Csr, rowptr), offsetof(Csr, colids), offsetof(Csr, values)};
extern const size_t vp_off_csc[] = {offsetof(Csc, rows), offsetof(Csc, cols), offsetof(Csc, nnz),
                                    offsetof(Csc, colptr), offsetof(Csc, rowids), offsetof(Csc, values)};
}

struct Mul { NT operator()(NT a, NT b) const { return vp_mul(a, b); } };
struct Add { NT operator()(NT a, NT b) const { return vp_add(a, b); } };

template<template<class, class> class RowAlg>
static inline void numericRoot(const Csr &A, const Csr &B, const Csr &M, IT *outc, NT *outv) {
    RowAlg<IT, NT> alg{B.cols, vp_size(), vp_size(), vp_size()};
    size_t size = vp_size();
    alg.getNumericAccumulator().setBuffer(vp_buffer(size), size, size);
    while (vp_more()) {
        IT row = vp_row_begin();
        IT *c = outc;
        NT *v = outv;
        IT flops = vp_size();
        alg.numericRow(A, B, M, Mul{}, Add{}, row, c, v, flops);
        vp_row_end_numeric(c, v);
    }
}

template<template<class, class> class RowAlg>
static inline void symbolicRoot(const Csr &A, const Csr &B, const Csr &M, IT *rowNvals) {
    RowAlg<IT, NT> alg{B.cols, vp_size(), vp_size(), vp_size()};
    size_t size = vp_size();
    alg.getSymbolicAccumulator().setBuffer(vp_buffer(size), size, size);
    while (vp_more()) {
        IT row = vp_row_begin();
        IT flops = vp_size();
        alg.symbolicRow(A, B, M, row, rowNvals, flops);
        vp_row_end_symbolic(rowNvals);
    }
}

#define ROOTS(NAME, ...)                                                                                        \
    extern "C" void num_##NAME(const Csr &A, const Csr &B, const Csr &M, IT *c, NT *v) {                        \
        numericRoot<__VA_ARGS__::Impl>(A, B, M, c, v);                                                          \
    }                                                                                                           \
    extern "C" void sym_##NAME(const Csr &A, const Csr &B, const Csr &M, IT *r) {                               \
        symbolicRoot<__VA_ARGS__::Impl>(A, B, M, r);                                                            \
    }

ROOTS(MSA1A, MSA1A<false, false>)
ROOTS(MSA2A, MSA2A<false, false>)
ROOTS(Hash, MaskedHash<false, false>)
ROOTS(MCA, MCA<false, false>)
ROOTS(Heap0, MaskedHeap<false, true, 0>)
ROOTS(Heap1, MaskedHeap<false, true, 1>)
ROOTS(Heap2, MaskedHeap<false, true, 2>)
ROOTS(HeapDot, MaskedHeap<false, true, MaskedHeapDot>)
ROOTS(MSA1Ac, MSA1A<true, false>)
ROOTS(MSA1Acs, MSA1A<true, true>)
ROOTS(MSA2Ac, MSA2A<true, false>)
ROOTS(MSA2Acs, MSA2A<true, true>)
ROOTS(Hashc, MaskedHash<true, false>)
ROOTS(Hashcs, MaskedHash<true, true>)
ROOTS(Heapc, MaskedHeap<true, true, 0>)

extern "C" void num_Inner(const Csr &A, const Csc &B, const Csr &M, IT *outc, NT *outv) {
    MaskedInner<IT, NT, false> alg;
    while (vp_more()) {
        IT row = vp_row_begin();
        IT *c = outc;
        NT *v = outv;
        alg.numericRow(A, B, M, Mul{}, Add{}, row, c, v);
        vp_row_end_numeric(c, v);
    }
}

extern "C" void sym_Inner(const Csr &A, const Csc &B, const Csr &M, IT *rowNvals) {
    MaskedInner<IT, NT, false> alg;
    while (vp_more()) {
        IT row = vp_row_begin();
        alg.symbolicRow(A, B, M, row, rowNvals);
        vp_row_end_symbolic(rowNvals);
    }
}
