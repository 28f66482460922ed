// Complemented heap product with an empty mask row: the complement of an empty row
// is the whole row, so the product has to be computed.
#include <cstdint>
#include <cstddef>
#include <functional>
#include <cstdio>
#include "CSR.h"
#include "CSC.h"
#include "utility.h"
#include "spgemm-blocks/masked-spgemm.h"
int main() {
    using IT = int; using NT = double;
    auto mk = [](int n, std::vector<std::tuple<int,int,double>> e) {
        CSR<IT, NT> a; a.rows = a.cols = n; a.nnz = e.size();
        a.rowptr = my_malloc<IT>(n + 1); a.colids = my_malloc<IT>(e.size() + 1); a.values = my_malloc<NT>(e.size() + 1);
        for (int i = 0; i <= n; i++) a.rowptr[i] = 0;
        int k = 0;
        for (auto [r, c, v] : e) { a.rowptr[r + 1]++; a.colids[k] = c; a.values[k++] = v; }
        for (int i = 0; i < n; i++) a.rowptr[i + 1] += a.rowptr[i];
        return a;
    };
    auto A = mk(2, {{0, 0, 1}, {0, 1, 2}, {1, 0, 3}}), B = mk(2, {{0, 1, 5}, {1, 0, 7}}), M = mk(2, {{1, 0, 1}});
    CSR<IT, NT> C;
    MaskedSpGEMM1p<MaskedHeap<true, true, 0>::Impl>(A, B, C, M, std::multiplies<NT>{}, std::plus<NT>{}, 1);
    printf("nnz=%d\n", C.nnz);
    return C.nnz == 3 ? 0 : 1;
}
