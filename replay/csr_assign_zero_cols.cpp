// g++ -std=c++17 -fopenmp -DCPP -include cstdint -I/repo -I/repo/GTgraph/sprng2.0-lite/include -fsanitize=address <this>
// Before the fix: assigning a matrix without columns leaves the row pointers freed (double free),
// and a product of matrices without rows leaks its row pointer array.
#include "CSR.h"
int main() {
    CSR<int, double> a(0, 3, 2), b(0, 3, 1);
    b.cols = 0;
    a = b;
    CSR<int, double> c;
    c.rowptr = my_malloc<int>(1);      // what initC allocates for a product without rows
    c.colids = my_malloc<int>(0);
    c.values = my_malloc<double>(0);
}
