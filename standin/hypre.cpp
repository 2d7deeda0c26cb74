#include "hypre.h"
#include "comm.hpp"
#include "mc.hpp"
#include <vector>
using namespace ranks;
HYPRE_Int hypre_error_flag = 0;
int hypre_live = 0;

HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n)
{
    HYPRE_Int lo = 0, hi = n - 1;
    while (lo <= hi) { HYPRE_Int m = (lo + hi) / 2; if (value < list[m]) { hi = m - 1; } else if (value > list[m]) { lo = m + 1; } else { return m; } }
    return -1;
}
hypre_Vector* hypre_SeqVectorCreate(HYPRE_Int n) { hypre_Vector* v = hypre_CTAlloc(hypre_Vector, 1); v->size = n; v->owns_data = 1; v->num_vectors = 1; return v; }
HYPRE_Int hypre_SeqVectorInitialize(hypre_Vector* v) { if (!v->data) { v->data = hypre_CTAlloc(HYPRE_Complex, v->size); } return 0; }
HYPRE_Int hypre_SeqVectorDestroy(hypre_Vector* v) { if (v) { if (v->owns_data) { hypre_TFree(v->data); } hypre_release(v); } return 0; }
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
hypre_ParVector* hypre_ParVectorCreate(MPI_Comm comm, HYPRE_Int n, HYPRE_Int* part)
{
    int r; MPI_Comm_rank(comm, &r);
    if (!part) { mc::fail("hypre_ParVectorCreate without a partition"); }
    hypre_ParVector* v = hypre_CTAlloc(hypre_ParVector, 1);
    v->comm = comm; v->global_size = n; v->first_index = part[0]; v->last_index = part[1] - 1; v->partitioning = part; v->local_vector = hypre_SeqVectorCreate(part[1] - part[0]);
    v->owns_data = v->owns_partitioning = 1;
    return v;
}
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector* v) { return hypre_SeqVectorInitialize(v->local_vector); }
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector* v)
{ if (v) { if (v->owns_data) { hypre_SeqVectorDestroy(v->local_vector); } if (v->owns_partitioning) { hypre_release(v->partitioning); } hypre_release(v); } return 0; }
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_partitioning = o; return 0; }

static hypre_CSRMatrix* csr(HYPRE_Int r, HYPRE_Int c, HYPRE_Int nnz) { hypre_CSRMatrix* m = hypre_CTAlloc(hypre_CSRMatrix, 1); m->num_rows = r; m->num_cols = c; m->num_nonzeros = nnz; m->owns_data = 1; return m; }
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix* m) { if (m) { hypre_release(m->i); hypre_release(m->rownnz); if (m->owns_data) { hypre_release(m->data); hypre_release(m->j); } hypre_release(m); } return 0; }
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix* m)
{
    HYPRE_Int n = 0; for (HYPRE_Int i = 0; i < m->num_rows; ++i) { n += m->i[i + 1] > m->i[i]; }
    m->num_rownnz = n; m->rownnz = NULL;
    if (n && n != m->num_rows) { m->rownnz = hypre_CTAlloc(HYPRE_Int, n); n = 0; for (HYPRE_Int i = 0; i < m->num_rows; ++i) { if (m->i[i + 1] > m->i[i]) { m->rownnz[n++] = i; } } }
    return 0;
}
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix* m)         // the diagonal entry becomes the first of its row
{
    if (m->num_rows != m->num_cols) { return -1; }
    for (HYPRE_Int i = 0; i < m->num_rows; ++i)
    {
        HYPRE_Int j = m->i[i]; while (j < m->i[i + 1] && m->j[j] != i) { ++j; }
        if (j == m->i[i + 1]) { if (m->i[i] != m->i[i + 1]) { return -2; } continue; }
        std::swap(m->j[j], m->j[m->i[i]]); std::swap(m->data[j], m->data[m->i[i]]);
    }
    return 0;
}
hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm comm, HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int* rs, HYPRE_Int* cs, HYPRE_Int offd_cols, HYPRE_Int nd, HYPRE_Int no)
{
    int r; MPI_Comm_rank(comm, &r);
    hypre_ParCSRMatrix* m = hypre_CTAlloc(hypre_ParCSRMatrix, 1);
    m->comm = comm; m->global_num_rows = rows; m->global_num_cols = cols; m->first_row_index = rs[0]; m->last_row_index = rs[1] - 1; m->first_col_diag = cs[0]; m->last_col_diag = cs[1] - 1;
    m->diag = csr(rs[1] - rs[0], cs[1] - cs[0], nd); m->offd = csr(rs[1] - rs[0], offd_cols, no); m->row_starts = rs; m->col_starts = cs;
    m->owns_data = m->owns_row_starts = m->owns_col_starts = 1;
    return m;
}
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix* m)
{
    if (!m) { return 0; }
    if (m->owns_data) { hypre_CSRMatrixDestroy(m->diag); hypre_CSRMatrixDestroy(m->offd); hypre_release(m->col_map_offd); hypre_MatvecCommPkgDestroy(m->comm_pkg); }
    if (m->owns_row_starts) { hypre_release(m->row_starts); }
    if (m->owns_col_starts) { hypre_release(m->col_starts); }
    hypre_release(m);
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix* m)
{
    int n = m->diag->i[m->diag->num_rows] + m->offd->i[m->offd->num_rows];
    MPI_Allreduce(&n, &m->num_nonzeros, 1, MPI_INT, MPI_SUM, m->comm);
    return 0;
}
// every rank learns who needs which of its columns, in the order in which the requests arrive
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix* A)
{
    int n = size(), me = rank(), k = A->offd->num_cols;
    std::vector<int> mine = {A->first_col_diag, A->last_col_diag};
    mine.insert(mine.end(), A->col_map_offd, A->col_map_offd + k);
    size_t c = enter("hypre_MatvecCommPkgCreate", mine.data(), mine.size() * sizeof(int), true);
    wait([=]() { return complete(c); });
    auto of = [&](int r) { return (const int*)brought(c, r).data(); };
    auto count = [&](int r) { return (int)(brought(c, r).size() / sizeof(int)) - 2; };
    hypre_ParCSRCommPkg* p = hypre_CTAlloc(hypre_ParCSRCommPkg, 1);
    p->comm = A->comm;
    std::vector<int> rp, rs(1, 0), sp, ss(1, 0), se;
    for (int i = 0; i < k; ++i)
    {
        int owner = -1; for (int r = 0; r < n; ++r) { if (A->col_map_offd[i] >= of(r)[0] && A->col_map_offd[i] <= of(r)[1]) { owner = r; } }
        if (owner < 0 || owner == me) { mc::fail(mc::S("column ", A->col_map_offd[i], " of the off-diagonal block belongs to no other rank")); }
        if (rp.empty() || rp.back() != owner) { rp.push_back(owner); rs.push_back(i); }
        rs.back() = i + 1;
    }
    for (int r : arrived(c))
    {
        if (r == me) { continue; }
        bool any = false;
        for (int i = 0; i < count(r); ++i) { int g = of(r)[2 + i]; if (g >= of(me)[0] && g <= of(me)[1]) { any = true; se.push_back(g - of(me)[0]); } }
        if (any) { sp.push_back(r); ss.push_back((int)se.size()); }
    }
    auto copy = [](const std::vector<int>& v) { HYPRE_Int* a = hypre_CTAlloc(HYPRE_Int, v.size()); std::copy(v.begin(), v.end(), a); return a; };
    p->num_recvs = (int)rp.size(); p->recv_procs = copy(rp); p->recv_vec_starts = copy(rs);
    p->num_sends = (int)sp.size(); p->send_procs = copy(sp); p->send_map_starts = copy(ss); p->send_map_elmts = copy(se);
    A->comm_pkg = p;
    return 0;
}
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg* p)
{ if (p) { hypre_release(p->send_procs); hypre_release(p->send_map_starts); hypre_release(p->send_map_elmts); hypre_release(p->recv_procs); hypre_release(p->recv_vec_starts); hypre_release(p); } return 0; }

struct hypre_ParCSRCommHandle { hypre_ParCSRCommPkg* pkg; HYPRE_Int job; char* recv; };
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg* p, void* send_, void* recv)
{
    if (job != 1 && job != 2 && job != 11 && job != 12) { mc::fail(mc::S("unknown communication job ", job)); }
    size_t w = job > 2 ? sizeof(HYPRE_Int) : sizeof(HYPRE_Complex); const char* s = (const char*)send_;
    point();
    if (job % 10 == 1) { for (int k = 0; k < p->num_sends; ++k) { send(p->send_procs[k], job, s + w * p->send_map_starts[k], w * (p->send_map_starts[k + 1] - p->send_map_starts[k])); } }
    else { for (int k = 0; k < p->num_recvs; ++k) { send(p->recv_procs[k], job, s + w * p->recv_vec_starts[k], w * (p->recv_vec_starts[k + 1] - p->recv_vec_starts[k])); } }
    hypre_ParCSRCommHandle* h = hypre_CTAlloc(hypre_ParCSRCommHandle, 1);
    h->pkg = p; h->job = job; h->recv = (char*)recv;
    return h;
}
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle* h)
{
    if (!h) { return 0; }
    hypre_ParCSRCommPkg* p = h->pkg; size_t w = h->job > 2 ? sizeof(HYPRE_Int) : sizeof(HYPRE_Complex); bool fwd = h->job % 10 == 1;
    point();
    for (int k = 0; k < (fwd ? p->num_recvs : p->num_sends); ++k)
    {
        const HYPRE_Int* starts = fwd ? p->recv_vec_starts : p->send_map_starts;
        auto m = receive((fwd ? p->recv_procs : p->send_procs)[k], h->job);
        if (m.size() != w * (starts[k + 1] - starts[k])) { mc::fail(mc::S("a message of ", m.size(), " bytes arrives where ", w * (starts[k + 1] - starts[k]), " are expected")); }
        memcpy(h->recv + w * starts[k], m.data(), m.size());
    }
    hypre_release(h);
    return 0;
}
static void axpy(HYPRE_Complex alpha, hypre_CSRMatrix* m, const HYPRE_Complex* x, HYPRE_Complex* y) { for (int i = 0; i < m->num_rows; ++i) for (int j = m->i[i]; j < m->i[i + 1]; ++j) { y[i] += alpha * m->data[j] * x[m->j[j]]; } }
static void axpyT(HYPRE_Complex alpha, hypre_CSRMatrix* m, const HYPRE_Complex* x, HYPRE_Complex* y) { for (int i = 0; i < m->num_rows; ++i) for (int j = m->i[i]; j < m->i[i + 1]; ++j) { y[m->j[j]] += alpha * m->data[j] * x[i]; } }
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    hypre_ParCSRCommPkg* p = A->comm_pkg; const HYPRE_Complex* xd = x->local_vector->data; HYPRE_Complex* yd = y->local_vector->data;
    std::vector<HYPRE_Complex> out(p->send_map_starts[p->num_sends] + 1), in(A->offd->num_cols + 1);
    for (int i = 0; i < p->send_map_starts[p->num_sends]; ++i) { out[i] = xd[p->send_map_elmts[i]]; }
    auto h = hypre_ParCSRCommHandleCreate(1, p, out.data(), in.data());
    for (int i = 0; i < A->diag->num_rows; ++i) { yd[i] = beta == 0 ? 0 : beta * yd[i]; }
    axpy(alpha, A->diag, xd, yd);
    hypre_ParCSRCommHandleDestroy(h);
    axpy(alpha, A->offd, in.data(), yd);
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    hypre_ParCSRCommPkg* p = A->comm_pkg; const HYPRE_Complex* xd = x->local_vector->data; HYPRE_Complex* yd = y->local_vector->data;
    std::vector<HYPRE_Complex> out(A->offd->num_cols + 1), in(p->send_map_starts[p->num_sends] + 1);
    axpyT(alpha, A->offd, xd, out.data());
    auto h = hypre_ParCSRCommHandleCreate(2, p, out.data(), in.data());
    for (int i = 0; i < A->diag->num_cols; ++i) { yd[i] = beta == 0 ? 0 : beta * yd[i]; }
    axpyT(alpha, A->diag, xd, yd);
    hypre_ParCSRCommHandleDestroy(h);
    for (int i = 0; i < p->send_map_starts[p->num_sends]; ++i) { yd[p->send_map_elmts[i]] += in[i]; }
    return 0;
}
// the rows of B that belong to the columns of A's off-diagonal block, with global column indices
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int)
{
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    if (!p) { mc::fail("hypre_ParCSRMatrixExtractBExt without a communication package"); }
    point();
    for (int k = 0; k < p->num_sends; ++k)
    {
        std::vector<double> m;
        for (int e = p->send_map_starts[k]; e < p->send_map_starts[k + 1]; ++e)
        {
            int r = p->send_map_elmts[e]; hypre_CSRMatrix *d = B->diag, *o = B->offd;
            m.push_back(d->i[r + 1] - d->i[r] + o->i[r + 1] - o->i[r]);
            for (int j = d->i[r]; j < d->i[r + 1]; ++j) { m.push_back(d->j[j] + B->first_col_diag); m.push_back(d->data[j]); }
            for (int j = o->i[r]; j < o->i[r + 1]; ++j) { m.push_back(B->col_map_offd[o->j[j]]); m.push_back(o->data[j]); }
        }
        send(p->send_procs[k], 900, m.data(), m.size() * sizeof(double));
    }
    std::vector<int> ip(1, 0), jx; std::vector<double> v;
    for (int k = 0; k < p->num_recvs; ++k)
    {
        auto raw = receive(p->recv_procs[k], 900); const double* m = (const double*)raw.data();
        for (int i = p->recv_vec_starts[k]; i < p->recv_vec_starts[k + 1]; ++i)
        { int n = (int)*m++; for (int j = 0; j < n; ++j) { jx.push_back((int)*m++); v.push_back(*m++); } ip.push_back((int)jx.size()); }
    }
    hypre_CSRMatrix* e = csr((int)ip.size() - 1, B->global_num_cols, (int)jx.size());
    e->i = hypre_CTAlloc(HYPRE_Int, ip.size()); std::copy(ip.begin(), ip.end(), e->i);
    e->j = hypre_CTAlloc(HYPRE_Int, jx.size()); std::copy(jx.begin(), jx.end(), e->j);
    e->data = hypre_CTAlloc(HYPRE_Complex, v.size()); std::copy(v.begin(), v.end(), e->data);
    return e;
}

// ---- solvers -------------------------------------------------------------------------------------
struct hypre_Solver_struct { int kind; double tol; int max_iter, print; HYPRE_PtrToParSolverFcn precond, precond_setup; HYPRE_Solver data; bool ready; };
static double dot(const double* a, const double* b, int n) { double l = 0, g; for (int i = 0; i < n; ++i) { l += a[i] * b[i]; } MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return g; }
static HYPRE_Int identity(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector b, HYPRE_ParVector x) { std::copy_n(b->local_vector->data, b->local_vector->size, x->local_vector->data); return 0; }
static HYPRE_Int nothing(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 0; }
HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver* s) { ++hypre_live; *s = new hypre_Solver_struct{1, 1e-6, 1000, 0, identity, nothing, nullptr, false}; return 0; }
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s) { if (s) { --hypre_live; delete s; } return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x) { s->ready = true; return s->precond_setup(s->data, A, b, x); }
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToParSolverFcn f, HYPRE_PtrToParSolverFcn setup, HYPRE_Solver d) { s->precond = f; s->precond_setup = setup; s->data = d; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int l) { s->print = l; return 0; }
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s, HYPRE_Real t) { s->tol = t; return 0; }
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { s->max_iter = n; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver s, HYPRE_Real t) { return HYPRE_PCGSetTol(s, t); }
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int n) { return HYPRE_PCGSetMaxIter(s, n); }
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!s || !s->ready) { mc::fail("a conjugate gradient solver is used before its setup"); }
    int n = A->diag->num_rows; double* bd = b->local_vector->data; double* xd = x->local_vector->data;
    std::vector<double> r(n + 1), p(n + 1), q(n + 1);
    hypre_Vector lr = {r.data(), n, 0, 1}, lp = {p.data(), n, 0, 1}, lq = {q.data(), n, 0, 1};
    hypre_ParVector R = *b, P = *b, Q = *b; R.local_vector = &lr; P.local_vector = &lp; Q.local_vector = &lq;
    auto apply = [&](hypre_ParVector* in, hypre_ParVector* out) { std::fill_n(out->local_vector->data, n, 0.0); s->precond(s->data, A, in, out); };
    apply(b, &P);
    double bi = dot(p.data(), bd, n);
    if (bi <= 0) { std::copy_n(bd, n, xd); return 0; }
    std::copy_n(bd, n, r.data()); hypre_ParCSRMatrixMatvec(-1.0, A, x, 1.0, &R);
    apply(&R, &P);
    double g = dot(r.data(), p.data(), n);
    for (int k = 0; k < s->max_iter && g / bi >= s->tol * s->tol && g > 0; ++k)
    {
        hypre_ParCSRMatrixMatvec(1.0, A, &P, 0.0, &Q);
        double a = g / dot(p.data(), q.data(), n);
        for (int i = 0; i < n; ++i) { xd[i] += a * p[i]; r[i] -= a * q[i]; }
        apply(&R, &Q);
        double o = g; g = dot(r.data(), q.data(), n);
        for (int i = 0; i < n; ++i) { p[i] = q[i] + g / o * p[i]; }
    }
    return 0;
}
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{ for (int i = 0; i < A->diag->num_rows; ++i) { x->local_vector->data[i] = b->local_vector->data[i] / A->diag->data[A->diag->i[i]]; } return 0; }
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int type, HYPRE_Int times, HYPRE_Real* l1, HYPRE_Real w, HYPRE_Real, HYPRE_Real, HYPRE_Real, HYPRE_Int, HYPRE_Real, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector*)
{
    int n = A->diag->num_rows; double *fd = f->local_vector->data, *ud = u->local_vector->data, *vd = v->local_vector->data;
    if (type != 0 && type != 1 && type != -7) { mc::fail(mc::S("the stand-in has no smoother of type ", type)); }
    for (int k = 0; k < times; ++k)
    {
        std::copy_n(fd, n, vd); hypre_ParCSRMatrixMatvec(-w, A, u, w, v);
        for (int i = 0; i < n; ++i) { ud[i] += vd[i] / (type == 1 ? l1[i] : A->diag->data[A->diag->i[i]]); }
    }
    return 0;
}
// present for the link only: these algorithms are hypre's own
#define ABSENT { mc::fail(std::string(__func__) + " is not part of the stand-in"); }
#define SETTER(f, T) HYPRE_Int f(HYPRE_Solver, T) { return 0; }
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*) ABSENT
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver) { return 0; }
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) ABSENT
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) ABSENT
SETTER(HYPRE_BoomerAMGSetCoarsenType, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetAggNumLevels, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetRelaxType, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetNumSweeps, HYPRE_Int)
SETTER(HYPRE_BoomerAMGSetStrongThreshold, HYPRE_Real) SETTER(HYPRE_BoomerAMGSetInterpType, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetPMaxElmts, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetMaxLevels, HYPRE_Int)
SETTER(HYPRE_BoomerAMGSetPrintLevel, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetMaxIter, HYPRE_Int) SETTER(HYPRE_BoomerAMGSetTol, HYPRE_Real)
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver*) ABSENT
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver) { return 0; }
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) ABSENT
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) ABSENT
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver, HYPRE_Real, HYPRE_Int) { return 0; }
SETTER(HYPRE_ParaSailsSetFilter, HYPRE_Real) SETTER(HYPRE_ParaSailsSetSym, HYPRE_Int) SETTER(HYPRE_ParaSailsSetLoadbal, HYPRE_Real) SETTER(HYPRE_ParaSailsSetReuse, HYPRE_Int) SETTER(HYPRE_ParaSailsSetLogging, HYPRE_Int)
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*) ABSENT
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*) ABSENT
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions*, HYPRE_Solver*) ABSENT
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver) ABSENT
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector) ABSENT
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int) ABSENT
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn, HYPRE_PtrToSolverFcn, HYPRE_Solver) ABSENT
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver, mv_MultiVectorPtr, mv_MultiVectorPtr, HYPRE_Real*) ABSENT
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void*, int, void*) ABSENT
void* mv_MultiVectorGetData(mv_MultiVectorPtr) ABSENT
void mv_MultiVectorDestroy(mv_MultiVectorPtr) ABSENT
