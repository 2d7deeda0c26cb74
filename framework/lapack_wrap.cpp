// BLAS and LAPACK are not instrumented: these link-time wrappers check with AddressSanitizer that every
// array a call is about to touch is addressable over the extent its arguments imply, then run the real routine.
#include "mc.hpp"
#include <algorithm>
extern "C"
{
__attribute__((weak)) void* __asan_region_is_poisoned(void* beg, size_t size);
__attribute__((weak)) void mc_access(const void* p, size_t bytes, int write);      // recorder of the thread check
#define WRAPPED(name, args) void __real_##name args; void __wrap_##name args
}
static void region(const char* call, const char* what, const void* p, long n, size_t size)
{
    if (n <= 0) { return; }
    if (!p) { mc::fail(std::string(call) + ": null pointer for " + what); }
    if (mc_access) { mc_access(p, (size_t)n * size, !(!strcmp(call, "dgemm") && (!strcmp(what, "A") || !strcmp(what, "B")))); }
    if (!__asan_region_is_poisoned) { return; }
    if (void* bad = __asan_region_is_poisoned(const_cast<void*>(p), (size_t)n * size))
    { mc::fail(mc::S(call, ": ", what, " is accessed beyond the memory it was given (", n, " elements, invalid at byte ", (const char*)bad - (const char*)p, ")")); }
}
static void mat(const char* call, const char* what, const double* p, int r, int c, int ld) { if (r > 0 && c > 0) { region(call, what, p, (long)(c - 1) * ld + r, 8); } }
extern "C"
{
WRAPPED(dgemm_, (const char* ta, const char* tb, const int* m, const int* n, const int* k, const double* al, const double* A, const int* lda, const double* B, const int* ldb, const double* be, double* C, const int* ldc))
{
    bool at = *ta != 'N' && *ta != 'n', bt = *tb != 'N' && *tb != 'n';
    if (*m > 0 && *n > 0 && *k > 0)
    {
        mat("dgemm", "A", A, at ? *k : *m, at ? *m : *k, *lda);
        mat("dgemm", "B", B, bt ? *n : *k, bt ? *k : *n, *ldb);
    }
    mat("dgemm", "C", C, *m, *n, *ldc);
    __real_dgemm_(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc);
}
WRAPPED(dgesvd_, (const char* ju, const char* jv, const int* m, const int* n, double* A, const int* lda, double* S, double* U, const int* ldu, double* VT, const int* ldvt, double* work, const int* lwork, int* info))
{
    if (*lwork == -1) { region("dgesvd", "work", work, 1, 8); }
    else
    {
        int k = std::min(*m, *n);
        mat("dgesvd", "A", A, *m, *n, *lda);
        region("dgesvd", "S", S, k, 8);
        if (*ju == 'A') { mat("dgesvd", "U", U, *m, *m, *ldu); }
        if (*ju == 'S') { mat("dgesvd", "U", U, *m, k, *ldu); }
        if (*jv == 'A') { mat("dgesvd", "VT", VT, *n, *n, *ldvt); }
        if (*jv == 'S') { mat("dgesvd", "VT", VT, k, *n, *ldvt); }
        region("dgesvd", "work", work, *lwork, 8);
    }
    __real_dgesvd_(ju, jv, m, n, A, lda, S, U, ldu, VT, ldvt, work, lwork, info);
}
WRAPPED(dgeqp3_, (const int* m, const int* n, double* A, const int* lda, int* jpvt, double* tau, double* work, const int* lwork, int* info))
{
    if (*lwork == -1) { region("dgeqp3", "work", work, 1, 8); }
    else
    {
        mat("dgeqp3", "A", A, *m, *n, *lda);
        region("dgeqp3", "jpvt", jpvt, *n, 4);
        region("dgeqp3", "tau", tau, std::min(*m, *n), 8);
        region("dgeqp3", "work", work, *lwork, 8);
    }
    __real_dgeqp3_(m, n, A, lda, jpvt, tau, work, lwork, info);
}
WRAPPED(dgeqrf_, (const int* m, const int* n, double* A, const int* lda, double* tau, double* work, const int* lwork, int* info))
{
    if (*lwork == -1) { region("dgeqrf", "work", work, 1, 8); }
    else
    {
        mat("dgeqrf", "A", A, *m, *n, *lda);
        region("dgeqrf", "tau", tau, std::min(*m, *n), 8);
        region("dgeqrf", "work", work, *lwork, 8);
    }
    __real_dgeqrf_(m, n, A, lda, tau, work, lwork, info);
}
WRAPPED(dorgqr_, (const int* m, const int* n, const int* k, double* A, const int* lda, double* tau, double* work, const int* lwork, int* info))
{
    if (*lwork == -1) { region("dorgqr", "work", work, 1, 8); }
    else
    {
        mat("dorgqr", "A", A, *m, *n, *lda);
        region("dorgqr", "tau", tau, *k, 8);
        region("dorgqr", "work", work, *lwork, 8);
    }
    __real_dorgqr_(m, n, k, A, lda, tau, work, lwork, info);
}
WRAPPED(dgetrf_, (const int* m, const int* n, double* A, const int* lda, int* ipiv, int* info))
{
    mat("dgetrf", "A", A, *m, *n, *lda);
    region("dgetrf", "ipiv", ipiv, std::min(*m, *n), 4);
    __real_dgetrf_(m, n, A, lda, ipiv, info);
}
WRAPPED(dgetri_, (const int* n, double* A, const int* lda, int* ipiv, double* work, const int* lwork, int* info))
{
    if (*lwork == -1) { region("dgetri", "work", work, 1, 8); }
    else
    {
        mat("dgetri", "A", A, *n, *n, *lda);
        region("dgetri", "ipiv", ipiv, *n, 4);
        region("dgetri", "work", work, *lwork, 8);
    }
    __real_dgetri_(n, A, lda, ipiv, work, lwork, info);
}
WRAPPED(dsytrd_, (char* uplo, const int* n, double* A, const int* lda, double* d, double* e, double* tau, double* work, int* lwork, int* info))
{
    if (*lwork == -1) { region("dsytrd", "work", work, 1, 8); }
    else
    {
        mat("dsytrd", "A", A, *n, *n, *lda);
        region("dsytrd", "d", d, *n, 8);
        region("dsytrd", "e", e, *n - 1, 8);
        region("dsytrd", "tau", tau, *n - 1, 8);
        region("dsytrd", "work", work, *lwork, 8);
    }
    __real_dsytrd_(uplo, n, A, lda, d, e, tau, work, lwork, info);
}
WRAPPED(dsterf_, (const int* n, double* d, double* e, int* info))
{
    region("dsterf", "d", d, *n, 8);
    region("dsterf", "e", e, *n - 1, 8);
    __real_dsterf_(n, d, e, info);
}
WRAPPED(dstein_, (const int* n, const double* d, const double* e, int* m, const double* w, const int* iblock, const int* isplit, double* z, const int* ldz, double* work, int* iwork, int* ifail, int* info))
{
    region("dstein", "d", d, *n, 8);
    region("dstein", "e", e, *n - 1, 8);
    region("dstein", "w", w, *m, 8);
    region("dstein", "iblock", iblock, *m, 4);
    region("dstein", "isplit", isplit, 1, 4);
    mat("dstein", "z", z, *n, *m, *ldz);
    region("dstein", "work", work, 5L * *n, 8);
    region("dstein", "iwork", iwork, *n, 4);
    region("dstein", "ifail", ifail, *m, 4);
    __real_dstein_(n, d, e, m, w, iblock, isplit, z, ldz, work, iwork, ifail, info);
}
WRAPPED(dstemr_, (const char* jobz, const char* range, const int* n, double* d, double* e, const double* vl, const double* vu, const int* il, const int* iu, int* m, double* w, double* z, const int* ldz, const int* nzc, int* isuppz, int* tryrac, double* work, const int* lwork, int* iwork, const int* liwork, int* info))
{
    if (*lwork == -1 || *liwork == -1) { region("dstemr", "work", work, 1, 8); region("dstemr", "iwork", iwork, 1, 4); }
    else
    {
        int k = *range == 'I' ? *iu - *il + 1 : *n;
        region("dstemr", "d", d, *n, 8);
        region("dstemr", "e", e, *n, 8);
        region("dstemr", "w", w, *n, 8);
        if (*jobz == 'V') { mat("dstemr", "z", z, *n, k, *ldz); region("dstemr", "isuppz", isuppz, 2L * k, 4); }
        region("dstemr", "work", work, *lwork, 8);
        region("dstemr", "iwork", iwork, *liwork, 4);
    }
    __real_dstemr_(jobz, range, n, d, e, vl, vu, il, iu, m, w, z, ldz, nzc, isuppz, tryrac, work, lwork, iwork, liwork, info);
}
WRAPPED(dormtr_, (char* side, char* uplo, char* trans, const int* m, const int* n, const double* A, const int* lda, const double* tau, double* C, const int* ldc, double* work, int* lwork, int* info))
{
    if (*lwork == -1) { region("dormtr", "work", work, 1, 8); }
    else
    {
        int nq = (*side == 'L' || *side == 'l') ? *m : *n;
        mat("dormtr", "A", A, nq, nq, *lda);
        region("dormtr", "tau", tau, nq - 1, 8);
        mat("dormtr", "C", C, *m, *n, *ldc);
        region("dormtr", "work", work, *lwork, 8);
    }
    __real_dormtr_(side, uplo, trans, m, n, A, lda, tau, C, ldc, work, lwork, info);
}
}
