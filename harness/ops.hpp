// A catalogue of library operations on a small world of objects, shared by the checks that vary the circumstances of a
// call (threads, memory exhaustion, repetition) rather than its arguments.
#ifndef OPS_HPP
#define OPS_HPP
#include "lin.hpp"
#include "partition.hpp"
#include "sparsesolve.hpp"
#include <fstream>
#include <memory>
namespace ops
{
using namespace linalgcpp;
typedef std::vector<int> VI;
typedef std::vector<double> VD;
inline double cell(int i, int j) { return ((i * 7 + j * 3) % 9 - 4) / 2.0 + (i == j ? 0.5 : 0); }
inline lin::M spd(int n) { lin::M m(n, n); for (int i = 0; i < n; ++i) { m.set(i, i, 4 + (i % 3)); if (i + 1 < n) { m.set(i, i + 1, -1); m.set(i + 1, i, -1); } } if (n > 3) { m.set(0, n - 1, -0.5); m.set(n - 1, 0, -0.5); } return m; }
inline lin::M rect(int r, int c) { lin::M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if ((i * 5 + j * 2) % 3 != 1 || i == j) { m.set(i, j, cell(i, j)); } } return m; }
inline lin::M graph(int n) { lin::M m(n, n); for (int i = 0; i < n; ++i) { m.set(i, i, 2); if (i + 1 < n) { m.set(i, i + 1, 1); m.set(i + 1, i, 1); } } return m; }

struct UserOperator : Operator
{
    UserOperator(int n) : Operator(n) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { for (int i = 0; i < rows_; ++i) { out[i] = 2 * in[i]; } }
    using Operator::Mult;
};

struct World
{
    int n;
    SparseMatrix<double> A, R, G;               // symmetric positive definite, rectangular, graph
    SparseMatrix<int> I;
    DenseMatrix D, E;
    CooMatrix<double> C;
    LilMatrix<double> L;
    BlockMatrix<double> B;
    Vector<double> x, y, z;                     // lengths n, n + 2, n
    Vector<int> k;
    BlockVector<double> bv;
    VD sd; VI perm, rows, cols, marker, labels;
    UserOperator U;
    BlockOperator BO;
    PCGSolver cg, pcg;
    MINRESSolver mr;
    PMINRESSolver pmr;
    EigenSolver eig;
    std::unique_ptr<SparseSolver> lu;
    Timer timer;
    std::string dir;
    World(int n_, const std::string& dir_) : n(n_), A(lin::sparse(spd(n))), R(lin::sparse(rect(n, n + 2), 1)), G(lin::sparse(graph(n))), I(lin::sparse<int>(graph(n))), D(lin::dense(rect(n, n))), E(lin::dense(spd(n))),
        x(lin::vec(lin::ramp(n))), y(lin::vec(lin::ramp(n + 2, 1))), z(lin::vec(lin::ramp(n, 2))), k(lin::vec<int>(lin::iramp(n))), bv(VI{0, 2, n}), U(n), BO(VI{0, n, 2 * n}),
        cg(A, 50, 1e-10, 0), pcg(A, U, 50, 1e-10, 0), mr(A, 50, 1e-10, 0), pmr(A, U, 50, 1e-10, 0), lu(new SparseSolver(A)), timer(Timer::Start::True), dir(dir_)
    {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; j += 1 + i % 3) { C.Add(i, j, cell(i, j)); L.Add(i, j, cell(j, i)); if (i % 2) { C.Add(i, j, 1); L.Add(i, j, 1); } }
        B = BlockMatrix<double>(VI{0, n, 2 * n}, VI{0, n, 2 * n + 2});
        B.SetBlock(0, 0, A); B.SetBlock(0, 1, R); B.SetBlock(1, 0, G);
        for (int i = 0; i < n; ++i) { bv[i] = i; perm.push_back((i + 2) % n); sd.push_back(1 << (i % 4)); labels.push_back((i * 3) % 7); if (i % 2) { rows.push_back(i); } else { cols.push_back(i); } }
        marker.assign(n + 2, -1);
        BO.SetBlock(0, 0, A); BO.SetBlock(1, 1, U); BO.SetBlock(1, 0, E);
        timer.Click();
        // files for the readers
        WriteText(sd, dir + "/in.vec"); WriteBinary(sd, dir + "/in.bvec"); WriteBinary(A, dir + "/in.bmat"); WriteCSR(A, dir + "/in.csr"); WriteMTX(A, dir + "/in.mtx"); WriteCooList(A, dir + "/in.coo");
        WriteAdjList(G, dir + "/in.adj"); WriteTable(I, dir + "/in.tab");
        { std::ofstream o(dir + "/in.graph"); for (int i = 0; i + 1 < n; ++i) { o << i << " " << i + 1 << "\n"; } }
        { std::ofstream o(dir + "/in.mtxl"); o << "%%MatrixMarket matrix coordinate pattern general\n" << n << " " << n << " " << n << "\n"; for (int i = 0; i < n; ++i) { o << i + 1 << " " << i + 1 << "\n"; } }
    }
    World(const World&) = delete;
    uint64_t digest() const
    {
        mc::Hash h;
        auto sp = [&](const SparseMatrix<double>& s) { h.u(s.Rows()).u(s.Cols()).c(s.GetIndptr()).c(s.GetIndices()).c(s.GetData()); };
        auto de = [&](const DenseMatrix& d) { h.u(d.Rows()).u(d.Cols()); for (int j = 0; j < d.Cols(); ++j) for (int i = 0; i < d.Rows(); ++i) { h.d(d(i, j)); } };
        sp(A); sp(R); sp(G); h.u(I.Rows()).c(I.GetIndices()).c(I.GetData()); de(D); de(E); de(C.ToDense()); de(L.ToDense()); sp(B.Combine());
        h.c(lin::stdv(x)).c(lin::stdv(y)).c(lin::stdv(z)).c(lin::stdv(k)).c(lin::stdv(bv)).c(sd).c(perm).c(rows).c(cols).c(marker).c(labels);
        return h;
    }
};

struct Local
{
    Vector<double> v{VD{9, 9, 9}};
    Vector<int> vi;
    DenseMatrix d{2, 3, VD{9, 9, 9, 9, 9, 9}};
    SparseMatrix<double> s; SparseMatrix<int> si; SparseMatrix<float> sf;
    BlockMatrix<double> b; CooMatrix<double> c; LilMatrix<double> l; BlockVector<double> bv;
    VD sv; VI svi; double x = 0; int k = 0; std::string text;
    uint64_t digest() const
    {
        mc::Hash h;
        h.c(lin::stdv(v)).c(lin::stdv(vi)).u(d.Rows()).u(d.Cols()); for (int j = 0; j < d.Cols(); ++j) for (int i = 0; i < d.Rows(); ++i) { h.d(d(i, j)); }
        h.u(s.Rows()).u(s.Cols()).c(s.GetIndptr()).c(s.GetIndices()).c(s.GetData()).u(si.Rows()).c(si.GetIndptr()).c(si.GetIndices()).c(si.GetData()).u(sf.Rows()).c(sf.GetIndices()).c(sf.GetData());
        auto de = [&](const DenseMatrix& d) { h.u(d.Rows()).u(d.Cols()); for (int j = 0; j < d.Cols(); ++j) for (int i = 0; i < d.Rows(); ++i) { h.d(d(i, j)); } };
        if (b.Rows()) { de(b.Combine().ToDense()); }
        de(c.ToDense()); de(l.ToDense()); h.c(lin::stdv(bv)).c(sv).c(svi).d(x).u(k).s(text);
        return h;
    }
};

struct Op { const char* name; bool shareable; void (*run)(World&, Local&); };

// what a writer left behind, so that its effect is part of the result
inline void slurp(const std::string& f, std::string& text) { std::ifstream i(f.c_str()); i.exceptions(std::ios::badbit); std::string s; while (std::getline(i, s)) { text += s; text += '\n'; } }

// the returning forms start from a random guess: the result is known up to the tolerance
inline bool solves(const World& w, const Vector<double>& v) { Vector<double> r = w.A.Mult(v); r -= w.x; return AbsMax(r) < 1e-6; }

#define SHARED(name, ...) {name, true, [](World& w_, Local& l) { const World& w = w_; (void)w; (void)l; __VA_ARGS__; }},
#define OWN(name, ...) {name, false, [](World& w, Local& l) { (void)w; (void)l; __VA_ARGS__; }},
inline const std::vector<Op>& all()
{
    static const std::vector<Op> list = {
        // sparse matrices
        SHARED("sparse times vector", l.v = w.A.Mult(w.x))
        SHARED("sparse times vector into a vector", static_cast<const Operator&>(w.R).Mult(w.y, l.v))
        SHARED("sparse transposed times vector", l.v = w.R.MultAT(w.x))
        SHARED("sparse times dense", l.d = w.A.Mult(w.D))
        SHARED("sparse transposed times dense", w.R.MultAT(w.D, l.d))
        SHARED("sparse times dense, transposed result", w.A.MultCT(w.D, l.d))
        SHARED("sparse times sparse", l.s = w.A.Mult(w.R))
        SHARED("sparse times sparse with a workspace", VI m(1, 5); l.s = w.A.Mult<double>(w.R, m))
        SHARED("integer sparse product", l.si = w.I.Mult(w.I))
        SHARED("mixed sparse product", l.s = w.I.Mult<double, double>(w.A))
        SHARED("sparse transpose", l.s = w.R.Transpose())
        SHARED("sparse transpose dense", l.d = w.R.TransposeDense(); w.A.TransposeDense(l.d))
        SHARED("sparse to dense", w.R.ToDense(l.d))
        SHARED("sparse diagonal", l.sv = w.A.GetDiag())
        SHARED("sparse sum and norm", l.x = w.A.Sum() + w.A.MaxNorm())
        SHARED("sparse submatrix", l.s = w.A.GetSubMatrix(w.rows, w.cols))
        SHARED("sparse submatrix with a workspace", VI m(w.n, -1); l.s = w.A.GetSubMatrix(w.rows, w.cols, m))
        SHARED("sparse row access", l.sv = w.A.GetData(1); l.svi = w.A.GetIndices(1); l.k = w.A.RowSize(0) + w.A.GetIndicesView(0)[0])
        SHARED("sparse copy", SparseMatrix<double> c(w.R); l.s = c)
        SHARED("sparse print", std::ostringstream o; w.A.Print("A", o); w.A.PrintDense("A", o); l.text = o.str())
        SHARED("sparse inner product", l.x = w.A.InnerProduct(w.x, w.z))
        SHARED("sparse scaled", l.s = 2.0 * w.A; l.s = l.s * 0.5)
        OWN("sparse sort", w.R.SortIndices())
        OWN("sparse scale rows", w.A.ScaleRows(w.sd))
        OWN("sparse scale columns", w.A.ScaleCols(w.sd))
        OWN("sparse unscale rows", w.A.InverseScaleRows(w.sd))
        OWN("sparse unscale columns", w.A.InverseScaleCols(w.sd))
        OWN("sparse permute columns", w.A.PermuteCols(w.perm))
        OWN("sparse eliminate row and column", w.A.EliminateRowCol(1))
        OWN("sparse eliminate marked columns", VI m(w.n, 0); m[1] = 1; w.A.EliminateCol(m); w.A.EliminateRow(2))
        OWN("sparse eliminate columns with values", VI m(w.n, 0); m[0] = 1; w.A.EliminateCol(m, w.x, w.z))
        OWN("sparse eliminate zeros", w.R.EliminateZeros(0.6))
        OWN("sparse add diagonal", w.A.AddDiag(2.0); w.A.AddDiag(w.sd))
        OWN("sparse scale", w.A *= 2.0; w.R /= 4.0; w.G = 3.0)
        OWN("sparse swap", swap(w.A, w.G); SparseMatrix<double> t(std::move(w.R)); w.R = std::move(t))
        // dense matrices
        SHARED("dense times vector", l.v = w.D.Mult(w.x))
        SHARED("dense transposed times vector", l.v = w.D.MultAT(w.x))
        SHARED("dense product", l.d = w.D.Mult(w.E))
        SHARED("dense product, left transposed", w.D.MultAT(w.E, l.d))
        SHARED("dense product, right transposed", w.D.MultBT(w.E, l.d))
        SHARED("dense product, both transposed", l.d = w.D.MultABT(w.E))
        SHARED("dense sums", l.d = w.D + w.E; l.d = l.d - w.D; l.d = 2.0 * l.d; l.d = l.d / 4.0)
        SHARED("dense transpose", w.D.Transpose(l.d))
        SHARED("dense reductions", l.x = w.D.Sum() + w.D.Max() + w.D.Min(); l.sv = w.D.GetDiag())
        SHARED("dense rows and columns", l.d = w.D.GetRow(1, 3); l.v = w.D.GetCol<double>(1); l.d.SetSize(2, w.n); w.D.GetRow(VI{1, 0}, l.d))
        SHARED("dense submatrix", l.d = w.D.GetSubMatrix(w.rows, w.cols); w.D.GetSubMatrix(0, 1, 2, 3, l.d))
        SHARED("dense copy data", w.D.CopyData(l.sv))
        SHARED("dense stack", std::vector<DenseMatrix> s{w.D, w.E}; l.d = HStack(s))
        SHARED("dense print", std::ostringstream o; w.D.Print("D", o); l.text = o.str())
        SHARED("singular values", l.sv = w.D.SVD(l.d))
        SHARED("orthogonalisation", w.E.QR(l.d))
        SHARED("inversion", w.E.Invert(l.d))
        SHARED("dense copy", DenseMatrix c(w.D); l.d = c)
        SHARED("dense comparison", l.k = (w.D == w.E) + 2 * (w.D == w.D))
        OWN("dense singular values in place", l.sv = w.D.SVD())
        OWN("dense orthogonalisation in place", w.E.QR())
        OWN("dense inversion in place", w.E.Invert())
        OWN("dense edits", w.D += w.E; w.D -= w.E; w.D *= 2.0; w.D /= 4.0; w.D.ScaleRows(w.sd); w.D.InverseScaleCols(w.sd))
        OWN("dense set blocks", w.D.SetSubMatrix(0, 0, w.E.GetSubMatrix(0, 0, 2, 2)); w.D.SetSubMatrixTranspose(0, 1, w.E.GetSubMatrix(0, 0, 2, 3)); w.D.SetRow(1, w.x); w.D.SetCol(2, w.x))
        OWN("dense add submatrix", VI r{0, 2}; VI c{1, 0}; DenseMatrix q(2, 2, VD{1, 2, 3, 4}); w.D.AddSubMatrix(r, c, q))
        OWN("dense resize", w.D.SetSize(w.n + 1, w.n, 2.0); w.D.SetSize(1, 2, 1.0))
        // vectors
        SHARED("vector copy", Vector<double> c(w.x); l.v = c)
        SHARED("vector sums", l.v = w.x + w.z; l.v = l.v - w.x; l.v = 2.0 * l.v; l.v = l.v / 2.0)
        SHARED("vector products", l.v = w.x; l.v *= w.z; l.v.Add(2.0, w.x); l.v.Sub(w.z); l.v.Set(0.5, w.x))
        SHARED("vector reductions", l.x = w.x.Mult(w.z) + L2Norm(w.x) + Sum(w.x) + Mean(w.x) + Max(w.x) + Min(w.x) + AbsMax(w.x) + InnerProduct(w.x, w.z); l.k = Sum(w.k))
        SHARED("linear combination", l.v = w.x; Add(2.0, w.x, 3.0, w.z, 0.5, l.v); Add(w.x, w.z, l.v); Sub(w.z, w.x, l.v))
        SHARED("vector gather", l.v = w.x.GetSubVector(w.rows); w.z.GetSubVector(w.cols, l.v); l.vi = w.k.GetSubVector(w.rows))
        SHARED("vector print", std::ostringstream o; w.x.Print("x", o); o << w.k << w.sd; l.text = o.str())
        SHARED("vector comparison", l.k = (w.x == w.x) + 2 * (w.x == w.z))
        OWN("vector normalise", Normalize(w.x); SubAvg(w.z); w.y.Normalize())
        OWN("seeded random fill", Randomize(w.x, -1.0, 2.0, 7); Randomize(w.k, -3, 4, 11); w.z.Randomize(0, 3, 5))
        OWN("random fill", Vector<double> t(w.x); Randomize(t); Randomize(t, 0.0, 2.0); l.k = t.size())
        OWN("vector resize", w.x.SetSize(w.n + 3, 2.0); w.z.SetSize(2))
        OWN("vector swap", swap(w.x, w.z); Vector<double> t(std::move(w.y)); w.y = std::move(t))
        // assembly
        SHARED("coordinate to sparse", l.s = w.C.ToSparse(); l.si = w.C.ToSparse<int>())
        SHARED("coordinate to dense", w.C.ToDense(l.d))
        SHARED("coordinate times vector", l.v = static_cast<const Operator&>(w.C).Mult(w.x); l.v = static_cast<const Operator&>(w.C).MultAT(w.x))
        SHARED("coordinate copy", CooMatrix<double> c(w.C); l.c = c)
        SHARED("list to sparse", l.s = w.L.ToSparse())
        SHARED("list to dense", w.L.ToDense(l.d))
        SHARED("list times vector", l.v = static_cast<const Operator&>(w.L).Mult(w.x); l.v = static_cast<const Operator&>(w.L).MultAT(w.x))
        SHARED("list copy", LilMatrix<double> c(w.L); l.l = c)
        SHARED("coordinate and list print", std::ostringstream o; w.C.Print("C", o); w.L.Print("L", o); w.B.Print("B", o); w.B.PrintDense("B", o); l.text = o.str())
        OWN("coordinate assembly", VI r{0, 1}; DenseMatrix q(2, 2, VD{1, 2, 3, 4}); w.C.Add(0, 1, 2.0); w.C.AddSym(1, 2, 3.0); w.C.Add(r, q); w.C.Add(r, VI{1, 2}, q); w.C.Add(r, VI{0, 2}, 2.0, q))
        OWN("list assembly", VI r{0, 1}; DenseMatrix q(2, 2, VD{1, 2, 3, 4}); w.L.Add(0, 1, 2.0); w.L.AddSym(1, 2, 3.0); w.L.Add(r, q); w.L.Add(r, VI{1, 2}, q))
        OWN("coordinate permute and eliminate", w.C.PermuteRows(w.perm); w.C.PermuteCols(w.perm); w.C.EliminateZeros(0.6); w.L.EliminateZeros(0.6))
        OWN("assembly resize", w.C.SetSize(w.n + 1, w.n + 2); w.C.Reserve(100); w.L.SetSize(w.n + 2, w.n + 1))
        // blocks
        SHARED("block matrix product", l.v = Vector<double>(2 * w.n); static_cast<const Operator&>(w.B).Mult(Vector<double>(2 * w.n + 2, 1.0), l.v); l.v = static_cast<const Operator&>(w.B).MultAT(Vector<double>(2 * w.n, 1.0)))
        SHARED("block matrix combine", l.s = w.B.Combine())
        SHARED("block matrix transpose", l.b = w.B.Transpose())
        SHARED("block matrix copy", BlockMatrix<double> c(w.B); l.b = c)
        OWN("block matrix set block", w.B.SetBlock(1, 1, w.R); w.B.SetBlock(0, 0, w.G))
        SHARED("block vector copy", l.bv = w.bv; l.v = l.bv; l.x = w.bv.GetBlock(1)[0])
        OWN("block vector edits", w.bv.GetBlock(0) = 3.0; w.bv *= 2.0; BlockVector<double> c(w.bv); l.bv = std::move(c))
        OWN("block operator", l.v = static_cast<const Operator&>(w.BO).Mult(Vector<double>(2 * w.n, 2.0)); BlockOperator c(w.BO); c.SetBlock(1, 1, w.E); l.sv = lin::stdv(static_cast<const Operator&>(c).MultAT(Vector<double>(2 * w.n, 1.0))))
        OWN("building a block operator", BlockOperator c(VI{0, 2}, VI{0, w.n}); BlockOperator e(std::move(c)); l.k = e.Rows() + e.Cols())
        SHARED("user operator", l.v = static_cast<const Operator&>(w.U).Mult(w.x); static_cast<const Operator&>(w.U).Mult(w.z, l.v))
        // solvers
        SHARED("conjugate gradient", l.k = solves(w, CG(w.A, w.x, 50, 1e-12, 0.0)) + 2 * solves(w, PCG(w.A, w.U, w.x, 50, 1e-12, 0.0)); l.v = Vector<double>(w.n, 0.5); CG(w.A, w.x, VectorView<double>(l.v), 3))
        SHARED("minimum residual", l.k = solves(w, MINRES(w.A, w.x, 50, 1e-12, 0.0)) + 2 * solves(w, PMINRES(w.A, w.U, w.x, 50, 1e-12, 0.0)); l.v = Vector<double>(w.n, 0.5); MINRES(w.A, w.x, VectorView<double>(l.v), 3))
        OWN("conjugate gradient object", l.v = Vector<double>(w.n, 0.0); w.cg.Mult(w.x, VectorView<double>(l.v)); w.pcg.Mult(w.z, VectorView<double>(l.v)); l.k = w.cg.GetNumIterations())
        OWN("minimum residual object", l.v = Vector<double>(w.n, 0.0); w.mr.Mult(w.x, VectorView<double>(l.v)); w.pmr.Mult(w.z, VectorView<double>(l.v)); l.k = w.mr.GetNumIterations())
        OWN("solver copies", PCGSolver c(w.cg); w.cg = w.pcg; MINRESSolver m(w.mr); w.mr = m; PMINRESSolver p(w.pmr); w.pmr = p; c.SetOperator(w.E); l.v = static_cast<const Operator&>(c).Mult(w.x))
        OWN("eigenpairs", auto p = w.eig.Solve(w.E, 1.0, 3); l.sv = p.first; l.k = p.second.Cols(); w.eig.Solve(w.A, 0.5, 2, p); l.x = p.first[0])
        SHARED("direct solver", SparseSolver s(w.A); l.v = s.Mult(w.x); static_cast<const Operator&>(s).MultAT(w.x, l.v))
        OWN("direct solver object", l.v = w.lu->Mult(w.x); l.sv = lin::stdv(static_cast<const Operator&>(*w.lu).MultAT(w.z)))
        OWN("direct solver copies", SparseSolver c(*w.lu); *w.lu = c; SparseSolver m(std::move(c)); c = m; l.v = m.Mult(w.x))
        // partitioning
        SHARED("adjacency arrays", auto t = MakeAdjacencyInfo<double, int>(w.G); l.svi = std::get<1>(t))
        SHARED("partition", l.svi = Partition(w.G, 2))
        SHARED("partition into one and three", l.svi = Partition(w.G, 1); l.k = l.svi.size(); l.svi = Partition(w.G, 3, 1.5, false, true))
        OWN("compaction", RemoveEmpty(w.labels))
        // files
        SHARED("write text", WriteText(w.sd, w.dir + "/out.vec"); slurp(w.dir + "/out.vec", l.text))
        SHARED("write binary", WriteBinary(w.sd, w.dir + "/out.bvec"); WriteBinary(w.A, w.dir + "/out.bmat"); slurp(w.dir + "/out.bmat", l.text))
        SHARED("write csr", WriteCSR(w.A, w.dir + "/out.csr"); slurp(w.dir + "/out.csr", l.text))
        SHARED("write matrix market", WriteMTX(w.A, w.dir + "/out.mtx"); slurp(w.dir + "/out.mtx", l.text))
        SHARED("write coordinate list", WriteCooList(w.A, w.dir + "/out.coo", true); slurp(w.dir + "/out.coo", l.text))
        SHARED("write adjacency list", WriteAdjList(w.G, w.dir + "/out.adj"); slurp(w.dir + "/out.adj", l.text))
        SHARED("write table", WriteTable(w.I, w.dir + "/out.tab"); slurp(w.dir + "/out.tab", l.text))
        SHARED("read text", l.sv = ReadText(w.dir + "/in.vec"); l.svi = ReadText<int>(w.dir + "/in.vec"))
        SHARED("read binary vector", l.sv = ReadBinaryVect(w.dir + "/in.bvec"))
        SHARED("read binary matrix", l.s = ReadBinaryMat(w.dir + "/in.bmat"))
        SHARED("read csr", l.s = ReadCSR(w.dir + "/in.csr"))
        SHARED("read matrix market", l.s = ReadMTX(w.dir + "/in.mtx"))
        SHARED("read matrix market list", l.s = ReadMTXList(w.dir + "/in.mtxl"))
        SHARED("read coordinate list", l.s = ReadCooList(w.dir + "/in.coo"))
        SHARED("read adjacency list", l.s = ReadAdjList(w.dir + "/in.adj"))
        SHARED("read graph list", l.s = ReadGraphList(w.dir + "/in.graph"))
        SHARED("read table", l.si = ReadTable(w.dir + "/in.tab"))
        // the rest
        OWN("timer", w.timer.Click(); Timer t(w.timer); t.Click(); l.k = t.TotalTime() >= 0 && t[0] >= 0)
        SHARED("command line", const char* a[] = {"prog", "--n", "3", "--name", "a long name that needs its own storage", "--flag", "--bad", "x"}; ArgParser p(8, a); int n = 1; std::string s = "d"; bool f = false; double b = 2; p.Parse(n, "--n", "number"); p.Parse(s, "--name", "name"); p.Parse(f, "--flag"); p.Parse(b, "--bad"); std::ostringstream o; p.ShowOptions(o); p.ShowErrors(o); p.ShowHelp(o); ArgParser q(p); l.k = n + 10 * f + 100 * q.IsGood(); l.text = o.str() + s)
    };
    return list;
}
#undef SHARED
#undef OWN
}
#endif
