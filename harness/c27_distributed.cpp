// C27: the distributed module over stand-ins for MPI and hypre.  Ranks are fibers; the explorer chooses the data, the distribution
// and which rank runs on at every communication.  Results are gathered from all ranks and compared with serial tables.
#include "lin.hpp"
#include "parlinalgcpp.hpp"
#include "ranks.hpp"
#include <sstream>
using lin::M;
namespace
{
using namespace linalgcpp;
typedef std::vector<int> Ints;
const MPI_Comm W = MPI_COMM_WORLD;
Ints part(const Ints& b, int r) { return {b[r], b[r + 1], b.back()}; }
// every division of n rows among p ranks, none of them empty
Ints divide(int n, int p) { Ints b(1, 0); for (int r = 1; r < p; ++r) { int room = n - b.back() - (p - r); b.push_back(b.back() + 1 + mc::choose(room)); } b.push_back(n); return b; }
Ints even(int n, int p) { Ints b; for (int r = 0; r <= p; ++r) { b.push_back((int)((long)n * r / p)); } return b; }
ranks::Schedule schedule() { return mc::pick({ranks::ascending, ranks::descending, ranks::alternating}); }
struct Local { Ints di, dj, oi, oj, map; std::vector<double> dv, ov; int rows, cols; };
Local local(const M& m, const Ints& rb, const Ints& cb, int rank, int order)
{
    Local l; l.di = l.oi = Ints(1, 0); l.rows = rb[rank + 1] - rb[rank]; l.cols = cb[rank + 1] - cb[rank];
    for (int j = 0; j < m.c; ++j)
    {
        if (j >= cb[rank] && j < cb[rank + 1]) { continue; }
        bool used = order == 2;                                                  // order 2: the map also lists columns without entries
        for (int i = rb[rank]; i < rb[rank + 1]; ++i) { used = used || m.s(i, j); }
        if (used) { l.map.push_back(j); }
    }
    for (int i = rb[rank]; i < rb[rank + 1]; ++i)
    {
        for (int k = 0; k < m.c; ++k)
        {
            int j = order ? m.c - 1 - k : k;
            if (!m.s(i, j)) { continue; }
            if (j >= cb[rank] && j < cb[rank + 1]) { l.dj.push_back(j - cb[rank]); l.dv.push_back(m(i, j)); }
            else { l.oj.push_back((int)(std::lower_bound(l.map.begin(), l.map.end(), j) - l.map.begin())); l.ov.push_back(m(i, j)); }
        }
        l.di.push_back((int)l.dj.size()); l.oi.push_back((int)l.oj.size());
    }
    return l;
}
ParMatrix build(const M& m, const Ints& rb, const Ints& cb, int rank, int order, int form = 0)
{
    Local l = local(m, rb, cb, rank, order);
    SparseMatrix<double> d(l.di, l.dj, l.dv, l.rows, l.cols), o(l.oi, l.oj, l.ov, l.rows, (int)l.map.size());
    if (form > 1 && !l.map.empty()) { mc::fail("not block diagonal"); }
    if (form == 2) { return ParMatrix(W, std::move(d)); }
    if (form == 3) { return ParMatrix(W, part(rb, rank), part(cb, rank), std::move(d)); }
    if (form == 4) { return ParMatrix(W, part(rb, rank), std::move(d)); }
    if (form == 1) { return ParMatrix(W, std::move(d), std::move(o), l.map); }
    return ParMatrix(W, part(rb, rank), part(cb, rank), std::move(d), std::move(o), l.map);
}
// what one rank holds of a matrix
struct Piece { Ints rs, cs, map; M diag, offd; int rows = 0, cols = 0, grows = 0, gcols = 0, nnz = 0; int doubled = 0; };
M table(const SparseMatrix<double>& s, int& doubled) { M m(s.Rows(), s.Cols()); for (int i = 0; i < s.Rows(); ++i) for (int j = s.GetIndptr()[i]; j < s.GetIndptr()[i + 1]; ++j) { int c = s.GetIndices()[j]; doubled += m.s(i, c); m(i, c) += s.GetData()[j]; m.s(i, c) = 1; } return m; }
Piece piece(const ParMatrix& a) { Piece p; p.rs = a.GetRowStarts(); p.cs = a.GetColStarts(); p.map = a.GetColMap(); p.diag = table(a.GetDiag(), p.doubled); p.offd = table(a.GetOffd(), p.doubled); p.rows = a.Rows(); p.cols = a.Cols(); p.grows = a.GlobalRows(); p.gcols = a.GlobalCols(); p.nnz = a.nnz(); return p; }
std::string where;
void go(int n, ranks::Schedule s, const std::function<void(int)>& body)
{
    hypre_live = 0; ranks::run(n, s, body);
    MC_CHECK(hypre_live == 0, hypre_live, " of hypre's objects and arrays are still held after everything is destroyed", where);
}
// the gathered matrix, after checking that the pieces fit together
M gather(const std::vector<Piece>& ps, const Ints& rb, const Ints& cb, const std::string& what)
{
    M g(rb.back(), cb.back());
    int stored = 0;
    for (size_t r = 0; r < ps.size(); ++r)
    {
        const Piece& p = ps[r]; std::string w = mc::S(what, " on rank ", r, where);
        MC_CHECK(p.rs == part(rb, (int)r) && p.cs == part(cb, (int)r), w, ": starts ", p.rs, " and ", p.cs);
        MC_CHECK(p.grows == g.r && p.gcols == g.c && p.rows == rb[r + 1] - rb[r] && p.cols == cb[r + 1] - cb[r], w, ": sizes ", p.rows, " ", p.cols, " of ", p.grows, " ", p.gcols);
        MC_CHECK(p.diag.r == p.rows && p.diag.c == p.cols && p.offd.r == p.rows && p.offd.c == (int)p.map.size(), w, ": blocks of the wrong shape");
        MC_CHECK(!p.doubled, w, ": a position is stored twice");
        for (int i = 0; i < p.rows; ++i) for (int j = 0; j < p.cols; ++j) { g(rb[r] + i, cb[r] + j) = p.diag(i, j); g.s(rb[r] + i, cb[r] + j) = p.diag.s(i, j); stored += p.diag.s(i, j); }
        for (size_t k = 0; k < p.map.size(); ++k)
        {
            int c = p.map[k];
            MC_CHECK(c >= 0 && c < g.c && (c < cb[r] || c >= cb[r + 1]), w, ": column map ", p.map);
            MC_CHECK(!k || p.map[k - 1] < c, w, ": column map out of order ", p.map);
            for (int i = 0; i < p.rows; ++i) { g(rb[r] + i, c) = p.offd(i, (int)k); g.s(rb[r] + i, c) = p.offd.s(i, (int)k); stored += p.offd.s(i, (int)k); }
        }
    }
    for (size_t r = 0; r < ps.size(); ++r) { MC_CHECK(ps[r].nnz == stored, what, where, ": rank ", r, " counts ", ps[r].nnz, " nonzeros of ", stored); }
    return g;
}
void same(const M& g, const M& e, const std::string& what)
{ for (int i = 0; i < e.r; ++i) for (int j = 0; j < e.c; ++j) { MC_CHECK(lin::eq(g(i, j), e(i, j)), what, where, ": entry ", i, ",", j, " is ", g(i, j), ", serially ", e(i, j)); } }
void same(const std::vector<std::vector<double>>& parts, const std::vector<double>& e, const Ints& b, const std::string& what)
{ for (size_t r = 0; r < parts.size(); ++r) { MC_CHECK((int)parts[r].size() == b[r + 1] - b[r], what, where, ": ", parts[r].size(), " entries on rank ", r); for (size_t i = 0; i < parts[r].size(); ++i) { MC_CHECK(lin::eq(parts[r][i], e[b[r] + i]), what, where, ": entry ", b[r] + i, " is ", parts[r][i], ", serially ", e[b[r] + i]); } } }
std::vector<double> ramp(int n, double a) { std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = a + (i * 3) % 7 - 2; } return v; }
Vector<double> slice(const std::vector<double>& v, const Ints& b, int r) { Vector<double> x(b[r + 1] - b[r]); for (int i = b[r]; i < b[r + 1]; ++i) { x[i - b[r]] = v[i]; } return x; }
std::vector<double> plain(const VectorView<double>& v) { return std::vector<double>(v.begin(), v.end()); }
double value(int i, int j) { int v = (i * 5 + j * 3) % 8; return v < 4 ? v - 4 : v - 3; }
M pattern(int r, int c) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (mc::flag()) { m.set(i, j, value(i, j)); } } return m; }
M family(int kind, int r, int c)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
    {
        bool in = kind == 0 ? true : kind == 1 ? std::abs(i - j) <= 1 : kind == 2 ? i == j : kind == 3 ? (i == 0 || j == 0 || i == j) : kind == 4 ? (i * 7 + j * 5) % 3 == 0 : kind == 5 ? j == c - 1 - i : kind == 6 ? (i + 2 * j) % 7 == 0 : false;
        if (in) { m.set(i, j, value(i, j)); }
    }
    return m;
}
std::string blocks(const Ints& rb, const Ints& cb, int order, int s) { return mc::S(" (rows ", rb, ", columns ", cb, ", order ", order, ", schedule ", s, ")"); }
void count(const M& m, const Ints& rb, const Ints& cb, int extra) { mc::Hash h; h.u(m.hash()).c(rb).c(cb).u(extra); mc::state(h); MC_STEP(m.str(), where, ": ", ranks::communications(), " communications"); }

// everything that concerns one matrix
void single(const M& m, const Ints& rb, const Ints& cb, int order, ranks::Schedule s)
{
    int P = (int)rb.size() - 1; where = blocks(rb, cb, order, s);
    typedef std::vector<std::vector<double>> Parts;
    std::vector<double> x = ramp(m.c, 1), y = ramp(m.r, 2), sc; for (int i = 0; i < m.r; ++i) { sc.push_back(i % 3 ? -0.5 : 4); }
    double mx = 0; for (double v : m.a) { mx = std::max(mx, std::fabs(v)); }
    enum { A, T, TT, NEG, SCALE, ASSIGN, ROWS, INV, ELIM, DIAG, COPY, MOVED, GEN, N };
    std::vector<Piece> p[N]; for (auto& q : p) { q.resize(P); }
    Parts ax(P), ax2(P), ax3(P), aty(P), aty2(P), aty3(P), again(P), copied(P);
    std::vector<double> norm(P); std::vector<int> comm(P);
    go(P, s, [&](int r)
    {
        ParMatrix a = build(m, rb, cb, r, order);
        p[A][r] = piece(a);
        Vector<double> xl = slice(x, cb, r), yl = slice(y, rb, r), o1(a.Rows()), o2(a.Cols()); o1 = 77; o2 = 78;
        a.Mult(xl, o1); ax[r] = plain(o1); ax2[r] = plain(a.Mult(xl));
        a.MultAT(yl, o2); aty[r] = plain(o2); aty2[r] = plain(a.MultAT(yl));
        { ParVector px(W, xl, part(cb, r)), py(W, yl, part(rb, r)); ParVector q = a.Mult(px); ax3[r] = plain(q); ParVector t = a.MultAT(py); aty3[r] = plain(t); }
        norm[r] = a.MaxNorm();
        { ParMatrix t = a.Transpose(); p[T][r] = piece(t); ParMatrix tt = Transpose(t); p[TT][r] = piece(tt); }
        { ParMatrix n = -a; p[NEG][r] = piece(n); }
        { ParMatrix c(a); c *= 0.25; p[SCALE][r] = piece(c); c = 3.0; p[ASSIGN][r] = piece(c); again[r] = plain(c.Mult(xl)); }
        std::vector<double> sl(sc.begin() + rb[r], sc.begin() + rb[r + 1]);
        { ParMatrix c(a); if (order) { c.ScaleRows(sl); } else { c.ScaleRows(SparseMatrix<double>(sl)); } p[ROWS][r] = piece(c); }
        { ParMatrix c(a); if (order) { c.InverseScaleRows(sl); } else { c.InverseScaleRows(SparseMatrix<double>(sl)); } p[INV][r] = piece(c); }
        { ParMatrix c(a); if (r == P - 1) { c.EliminateRow(a.Rows() - 1); } p[ELIM][r] = piece(c); }
        { ParMatrix c(a); if (a.Rows() == a.Cols()) { if (order) { c.AddDiag(2.0); } else { c.AddDiag(std::vector<double>(a.Rows(), 2.0)); } } p[DIAG][r] = piece(c); }
        { ParMatrix c; c = a; ParMatrix d(std::move(c)); ParMatrix e; swap(d, e); p[COPY][r] = piece(e); copied[r] = plain(e.Mult(xl)); c = std::move(e); p[MOVED][r] = piece(c); }
        { ParMatrix g = build(m, rb, cb, r, order, 1); p[GEN][r] = piece(g); }
        { ParCommPkg k = a.MakeCommPkg(); comm[r] = k.num_sends_ == (int)k.send_procs_.size() && (int)k.send_map_starts_.size() == k.num_sends_ + 1 && (int)k.send_map_elmts_.size() == k.send_map_starts_.back() && k.num_recvs_ == (int)k.recv_procs_.size() && (int)k.recv_vec_starts_.size() == k.num_recvs_ + 1 && k.recv_vec_starts_.back() == (int)a.GetColMap().size(); }
    });
    std::string w = m.str();
    same(gather(p[A], rb, cb, w + " built"), m, w + " built");
    same(ax, m.mul(x), rb, w + " times a vector"); same(ax2, m.mul(x), rb, w + " times a vector, returned"); same(ax3, m.mul(x), rb, w + " times a distributed vector");
    same(aty, m.T().mul(y), cb, w + " transposed times a vector"); same(aty2, m.T().mul(y), cb, w + " transposed times a vector, returned"); same(aty3, m.T().mul(y), cb, w + " transposed times a distributed vector");
    for (int r = 0; r < P; ++r) { MC_CHECK(lin::eq(norm[r], mx), w, where, ": largest absolute value ", norm[r], " on rank ", r, ", serially ", mx); MC_CHECK(comm[r], w, where, ": communication package of rank ", r); }
    same(gather(p[T], cb, rb, w + " transposed"), m.T(), w + " transposed"); same(gather(p[TT], rb, cb, w + " transposed twice"), m, w + " transposed twice");
    auto each = [&](std::function<double(int, int, double)> f) { M e = m; for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { e(i, j) = f(i, j, m(i, j)); } } return e; };
    same(gather(p[NEG], rb, cb, w + " negated"), each([](int, int, double v) { return -v; }), w + " negated");
    same(gather(p[SCALE], rb, cb, w + " scaled"), each([](int, int, double v) { return v * 0.25; }), w + " scaled");
    M three = each([](int, int, double) { return 3.0; });
    same(gather(p[ASSIGN], rb, cb, w + " set to 3"), three, w + " set to 3"); same(again, three.mul(x), rb, w + " set to 3, times a vector");
    same(gather(p[ROWS], rb, cb, w + " with scaled rows"), each([&](int i, int, double v) { return v * sc[i]; }), w + " with scaled rows");
    same(gather(p[INV], rb, cb, w + " with inversely scaled rows"), each([&](int i, int, double v) { return v / sc[i]; }), w + " with inversely scaled rows");
    same(gather(p[ELIM], rb, cb, w + " without its last row"), each([&](int i, int, double v) { return i == m.r - 1 ? 0 : v; }), w + " without its last row");
    same(gather(p[DIAG], rb, cb, w + " with a larger diagonal"), each([&](int i, int j, double v) { for (int r = 0; r < P; ++r) { if (rb[r + 1] - rb[r] == cb[r + 1] - cb[r] && i >= rb[r] && i < rb[r + 1] && j - cb[r] == i - rb[r]) { return v + 2; } } return v; }), w + " with a larger diagonal");
    same(gather(p[COPY], rb, cb, w + " copied"), m, w + " copied"); same(copied, m.mul(x), rb, w + " copied, times a vector"); same(gather(p[MOVED], rb, cb, w + " moved"), m, w + " moved");
    same(gather(p[GEN], rb, cb, w + " with computed offsets"), m, w + " with computed offsets");
    count(m, rb, cb, order * 8 + s);
}
void product(const M& a, const M& b, const Ints& rb, const Ints& kb, const Ints& cb, int order, ranks::Schedule s)
{
    int P = (int)rb.size() - 1; where = mc::S(blocks(rb, cb, order, s), " inner ", kb);
    std::vector<Piece> p1(P), p2(P), p3(P);
    std::vector<double> x = ramp(b.c, 3); std::vector<std::vector<double>> v(P);
    go(P, s, [&](int r)
    {
        ParMatrix A = build(a, rb, kb, r, order), B = build(b, kb, cb, r, order);
        ParMatrix c = A.Mult(B); p1[r] = piece(c); v[r] = plain(c.Mult(slice(x, cb, r)));
        ParMatrix d = A * B; p2[r] = piece(d);
        ParMatrix e = Mult(Transpose(B), A.Transpose()); p3[r] = piece(e);
    });
    std::string w = a.str() + " * " + b.str(); M e = a.mul(b);
    same(gather(p1, rb, cb, w), e, w); same(v, e.mul(x), rb, w + " times a vector"); same(gather(p2, rb, cb, w + " by operator"), e, w + " by operator"); same(gather(p3, cb, rb, w + " transposed"), e.T(), w + " transposed");
    count(a, rb, kb, (int)(b.hash() ^ order * 8 ^ s));
}
void sum(const M& a, const M& b, const Ints& rb, const Ints& cb, int order, ranks::Schedule s)
{
    int P = (int)rb.size() - 1; where = blocks(rb, cb, order, s); const double al = 2, be = -3;
    enum { N = 7 }; std::vector<Piece> p[N]; for (auto& q : p) { q.resize(P); }
    const double ca[N] = {1, al, al, 1, al, al, 0.5}, c2[N] = {1, be, be, -1, -be, -be, 4};
    go(P, s, [&](int r)
    {
        ParMatrix A = build(a, rb, cb, r, order), B = build(b, rb, cb, r, order ? 0 : 1); std::vector<int> mark(a.c + 2, 5);
        ParMatrix q0 = ParAdd(A, B); p[0][r] = piece(q0); ParMatrix q1 = ParAdd(al, A, be, B); p[1][r] = piece(q1); ParMatrix q2 = ParAdd(al, A, be, B, mark); p[2][r] = piece(q2);
        ParMatrix q3 = ParSub(A, B); p[3][r] = piece(q3); ParMatrix q4 = ParSub(al, A, be, B); p[4][r] = piece(q4); ParMatrix q5 = ParSub(al, A, be, B, mark); p[5][r] = piece(q5);
        ParMatrix q6 = ParAdd(0.5, A, 4, B, mark); p[6][r] = piece(q6);
    });
    for (int k = 0; k < N; ++k)
    {
        M e(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { e(i, j) = ca[k] * a(i, j) + c2[k] * b(i, j); }
        std::string w = mc::S(ca[k], " * ", a.str(), " + ", c2[k], " * ", b.str(), " (form ", k, ")"); same(gather(p[k], rb, cb, w), e, w);
    }
    count(a, rb, cb, (int)(b.hash() ^ order * 8 ^ s));
}
void galerkin(const M& a, const M& q, const M& p, const Ints& nb, const Ints& cb, const Ints& qb, int order, ranks::Schedule s)
{
    int P = (int)nb.size() - 1; where = mc::S(blocks(nb, cb, order, s), " left ", qb);
    std::vector<Piece> p1(P), p2(P);
    go(P, s, [&](int r)
    {
        ParMatrix A = build(a, nb, nb, r, order), R = build(q, nb, qb, r, order), Pm = build(p, nb, cb, r, order);
        ParMatrix c = RAP(A, Pm); p1[r] = piece(c); ParMatrix d = RAP(R, A, Pm); p2[r] = piece(d);
    });
    std::string w = a.str() + " between " + q.str() + " and " + p.str();
    M e1 = p.T().mul(a.mul(p)), e2 = q.T().mul(a.mul(p));
    same(gather(p1, cb, cb, w), e1, w + " (both sides the same)"); same(gather(p2, qb, cb, w), e2, w);
    count(a, nb, cb, (int)(p.hash() ^ order * 8 ^ s));
}
}
// every small matrix, every distribution
MC_SCENARIO(matrices, 5)
{
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4); if (r * c > (mc::thorough() ? 12 : 9)) { mc::prune(); }
    int P = 1 + mc::choose(std::min(std::min(r, c), 3)); Ints rb = divide(r, P), cb = divide(c, P); int order = mc::choose(3); auto s = schedule();
    if (r * c > 6 && (order == 2 || (!mc::thorough() && s != ranks::alternating))) { mc::prune(); }
    single(pattern(r, c), rb, cb, order, s);
}
// matrices without off-diagonal block, by every constructor
MC_SCENARIO(block_diagonal, 5)
{
    int P = 1 + mc::choose(3), form = 2 + mc::choose(3), n = P + mc::choose(4 - P + (mc::thorough() ? 2 : 1)), c = form == 4 ? n : P + mc::choose(4 - P + 1); Ints rb = divide(n, P), cb = form == 4 ? rb : divide(c, P); auto s = schedule();
    M m(n, c); for (int r = 0; r < P; ++r) for (int i = rb[r]; i < rb[r + 1]; ++i) for (int j = cb[r]; j < cb[r + 1]; ++j) { if ((i + j) % 5 == 4 || mc::flag()) { m.set(i, j, value(i, j)); } }
    where = mc::S(blocks(rb, cb, form, s)); std::vector<Piece> p(P), t(P); std::vector<std::vector<double>> v(P), w(P); std::vector<double> x = ramp(c, 1), y = ramp(n, 2); std::vector<int> ids(P);
    go(P, s, [&](int r) { ParMatrix a = build(m, rb, cb, r, 0, form); p[r] = piece(a); ids[r] = a.GetMyId() == r && a.GetComm() == W; v[r] = plain(a.Mult(slice(x, cb, r))); w[r] = plain(a.MultAT(slice(y, rb, r))); ParMatrix q = a.Transpose(); t[r] = piece(q); });
    std::string name = m.str() + " built from its diagonal blocks"; same(gather(p, rb, cb, name), m, name); same(v, m.mul(x), rb, name + ", times a vector"); same(w, m.T().mul(y), cb, name + ", transposed times a vector"); same(gather(t, cb, rb, name + ", transposed"), m.T(), name + ", transposed");
    for (int r = 0; r < P; ++r) { MC_CHECK(ids[r], name, where, ": rank or communicator of rank ", r); }
    count(m, rb, cb, form * 8 + s);
}
// the row norms behind the smoothers
MC_SCENARIO(row_norms, 4)
{
    int n = 1 + mc::choose(4), P = 1 + mc::choose(std::min(n, 3)), option = 1 + mc::choose(4), scale = mc::choose(3); Ints b = divide(n, P); auto s = schedule();
    M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) { m.set(i, i, (i % 2 ? -1.0 : 1.0) * (1 << 2 * scale)); } else if ((i + 2 * j) % 3 || mc::flag()) { m.set(i, j, value(i, j) * 0.5); } }
    std::vector<std::vector<double>> v(P); where = blocks(b, b, option, s);
    go(P, s, [&](int r)
    {
        Local l = local(m, b, b, r, 0); Ints di(1, 0), dj; std::vector<double> dv;                             // hypre keeps the diagonal entry first in its row
        for (int i = 0; i < l.rows; ++i) { dj.push_back(i); dv.push_back(m(b[r] + i, b[r] + i)); for (int k = l.di[i]; k < l.di[i + 1]; ++k) { if (l.dj[k] != i) { dj.push_back(l.dj[k]); dv.push_back(l.dv[k]); } } di.push_back((int)dj.size()); }
        ParMatrix a(W, part(b, r), part(b, r), SparseMatrix<double>(di, dj, dv, l.rows, l.cols), SparseMatrix<double>(l.oi, l.oj, l.ov, l.rows, (int)l.map.size()), l.map); std::vector<double> q; hypre_ParCSRComputeL1Norms(a, option, q); v[r] = q;
    });
    std::vector<double> e(n); for (int r = 0; r < P; ++r) for (int i = b[r]; i < b[r + 1]; ++i)
    {
        double all = 0, off = 0, sq = 0, d = std::fabs(m(i, i)); for (int j = 0; j < n; ++j) { double t = m(i, j); all += std::fabs(t); sq += t * t; if (j < b[r] || j >= b[r + 1]) { off += std::fabs(t); } }
        e[i] = option == 1 ? all : option == 2 ? d + off : option == 3 ? sq : d + 0.5 * off; if (option == 4 && e[i] <= 4.0 / 3.0 * d) { e[i] = d; } if (m(i, i) < 0) { e[i] = -e[i]; }
    }
    same(v, e, b, m.str() + mc::S(" row norms, option ", option)); count(m, b, b, option * 8 + s);
}
// every pair of small matrices
MC_SCENARIO(products, 7)
{
    int r = 1 + mc::choose(3), k = 1 + mc::choose(3), c = 1 + mc::choose(3); if (r * k + k * c > (mc::thorough() ? 12 : 9)) { mc::prune(); }
    int P = 1 + mc::choose(std::min(std::min(r, c), k)); Ints rb = divide(r, P), kb = divide(k, P), cb = divide(c, P); int order = mc::choose(2); auto s = schedule();
    if (r * k + k * c > 8 && s != ranks::alternating) { mc::prune(); }
    M a = pattern(r, k), b = pattern(k, c); product(a, b, rb, kb, cb, order, s);
}
MC_SCENARIO(sums, 6)
{
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4); if (r * c > (mc::thorough() ? 6 : 5)) { mc::prune(); }
    int P = 1 + mc::choose(std::min(std::min(r, c), 3)); Ints rb = divide(r, P), cb = divide(c, P); int order = mc::choose(2); auto s = schedule();
    M a = pattern(r, c), b = pattern(r, c); for (auto& v : b.a) { v *= 2; } sum(a, b, rb, cb, order, s);
}
MC_SCENARIO(triple_products, 6)
{
    int n = 1 + mc::choose(3), c = 1 + mc::choose(n), q = 1 + mc::choose(n); if (n * n + n * c > (mc::thorough() ? 12 : 8)) { mc::prune(); }
    int P = 1 + mc::choose(std::min(c, q)); Ints nb = divide(n, P), cb = divide(c, P), qb = divide(q, P); int order = mc::choose(2);
    M a = pattern(n, n), p = pattern(n, c); galerkin(a, family(mc::choose(2), n, q), p, nb, cb, qb, order, ranks::alternating);
}
// larger structured matrices over up to five ranks (eight, thorough), even and uneven shares
MC_SCENARIO(families, 6)
{
    int P = 1 + mc::choose(mc::thorough() ? 8 : 5), ka = mc::choose(8), kb = mc::choose(8), n = mc::pick(mc::thorough() ? std::vector<int>{8, 13, 33, 64} : std::vector<int>{8, 17}), m = mc::pick({8, 11}), op = mc::choose(4), uneven = mc::choose(2);
    auto shares = [&](int size) { Ints b = even(size, P); if (uneven) { for (int r = 1; r < P; ++r) { b[r] = r; } } return b; };
    Ints nb = shares(n), mb = shares(m);
    if (op == 0) { if (kb) { mc::prune(); } single(family(ka, n, m), nb, mb, 0, ranks::alternating); }
    else if (op == 1) { product(family(ka, n, m), family(kb, m, n), nb, mb, nb, 1, ranks::descending); }
    else if (op == 2) { M b = family(kb, n, m); for (auto& v : b.a) { v *= 0.5; } sum(family(ka, n, m), b, nb, mb, 0, ranks::alternating); }
    else { galerkin(family(ka, n, n), family((kb + 1) % 8, n, m), family(kb, n, m), nb, mb, mb, 0, ranks::ascending); }
}
// every order in which the ranks can run
MC_SCENARIO(schedules2, 8)
{
    int kind = mc::choose(4), op = mc::choose(4); if (op == 2 && kind > (mc::thorough() ? 3 : 0)) { mc::prune(); } M m = family(kind == 2 ? 4 : kind == 3 ? 6 : kind, 4, 4); Ints b = kind == 1 ? Ints{0, 1, 4} : Ints{0, 2, 4};
    std::vector<Piece> p(2); std::vector<std::vector<double>> v(2); std::vector<double> x = ramp(4, 1), g(2); where = mc::S(" (every schedule, rows ", b, ")");
    go(2, ranks::explored, [&](int r)
    {
        ParMatrix a = build(m, b, b, r, 0);
        if (op == 0) { v[r] = plain(a.Mult(slice(x, b, r))); g[r] = ParVector(W, slice(x, b, r), part(b, r)).GlobalSum(); }
        else if (op == 1) { v[r] = plain(a.MultAT(slice(x, b, r))); g[r] = ParMult(W, slice(x, b, r), slice(x, b, r)); }
        else if (op == 2) { ParMatrix t = a.Transpose(); p[r] = piece(t); }
        else { ParMatrix c = a * a; p[r] = piece(c); }
    });
    std::string w = mc::S(m.str(), " operation ", op);
    if (op < 2) { same(v, op ? m.T().mul(x) : m.mul(x), b, w); double e = 0; for (double t : x) { e += op ? t * t : t; } for (double t : g) { MC_CHECK(lin::eq(t, e), w, where, ": reduction ", t, ", serially ", e); } }
    else { M e = op == 2 ? m.T() : m.mul(m); same(gather(p, b, b, w), e, w); }
    count(m, b, b, op);
}
// three ranks, every schedule within a number of deviations from taking turns
MC_SCENARIO(schedules3, 8)
{
    int op = mc::choose(5), kind = mc::choose(3); M m = family(kind == 2 ? 4 : kind, 6, 6); for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) { m(i, j) = m(j, i); m.s(i, j) = m.s(j, i); }
    mc::set_budget(mc::thorough() ? 4 : 3); Ints b = kind ? Ints{0, 1, 4, 6} : Ints{0, 2, 4, 6}; std::vector<Piece> p(3); std::vector<std::vector<double>> v(3); std::vector<double> x = ramp(6, 1); where = mc::S(" (schedules, rows ", b, ")");
    go(3, ranks::bounded, [&](int r)
    {
        if (op == 4) { Ints share(6); for (int i = 0; i < 6; ++i) { share[i] = (int)(std::upper_bound(b.begin(), b.end(), i) - b.begin()) - 1; } ParMatrix a = ParSplit(W, lin::sparse(m), share); p[r] = piece(a); return; }
        ParMatrix a = build(m, b, b, r, 0);
        if (op == 0) { v[r] = plain(a.Mult(slice(x, b, r))); }
        else if (op == 1) { ParMatrix t = a.Transpose(); p[r] = piece(t); v[r] = plain(t.Mult(slice(x, b, r))); }
        else if (op == 2) { ParMatrix c = a * a; p[r] = piece(c); }
        else { ParMatrix c = ParSub(2, a, 1, a); p[r] = piece(c); }
    });
    std::string w = mc::S(m.str(), " operation ", op); M e = op == 2 ? m.mul(m) : m;
    if (op < 2) { same(v, m.mul(x), b, w); }
    if (op) { same(gather(p, b, b, w), e, w); }
    count(m, b, b, op);
}
// every division of the vertices of every small matrix
MC_SCENARIO(split, 5)
{
    int n = 1 + mc::choose(4), P = 1 + mc::choose(std::min(n, 3)), general = mc::choose(2); if (n > 3 && general) { mc::prune(); }
    Ints share(n), size(P, 0); for (int i = 0; i < n; ++i) { share[i] = mc::choose(P); ++size[share[i]]; } for (int s : size) { if (!s) { mc::prune(); } }
    auto s = schedule(); if (n > 3 && s != ranks::alternating) { mc::prune(); }
    M m(n, n); for (int i = 0; i < n; ++i) for (int j = general ? 0 : i; j < n; ++j) { if (mc::flag()) { m.set(i, j, value(i, j)); if (!general) { m.set(j, i, value(i, j)); } } }
    Ints b(1, 0), perm; for (int r = 0; r < P; ++r) { b.push_back(b.back() + size[r]); for (int i = 0; i < n; ++i) { if (share[i] == r) { perm.push_back(i); } } }
    std::vector<Piece> p(P); where = mc::S(" (shares ", share, ", schedule ", s, ")");
    go(P, s, [&](int r) { ParMatrix a = ParSplit(W, lin::sparse(m, mc::thorough() ? 1 : 0), share); p[r] = piece(a); });
    M e(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { e(i, j) = m(perm[i], perm[j]); e.s(i, j) = m.s(perm[i], perm[j]); }
    M g = gather(p, b, b, m.str() + " split"); same(g, e, m.str() + " split"); MC_CHECK(g.nnz() == e.nnz(), m.str(), " split", where, ": ", g.nnz(), " stored entries instead of ", e.nnz());
    count(m, b, share, s);
}
// vectors: every length, every division, every reduction and entrywise operation
MC_SCENARIO(vectors, 4)
{
    int n = 1 + mc::choose(mc::thorough() ? 7 : 5), P = 1 + mc::choose(std::min(n, 4)); Ints b = divide(n, P); auto s = schedule(); int form = mc::choose(2);
    std::vector<double> x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = mc::pick({-2.0, 0.0, 3.0}); y[i] = i % 2 ? 2 : -4; }
    enum { N = 9 }; std::vector<std::vector<double>> v[N]; for (auto& q : v) { q.resize(P); } std::vector<std::vector<double>> num(P); where = mc::S(" (", x, " divided ", b, ", schedule ", s, ")");
    go(P, s, [&](int r)
    {
        ParVector a(W, slice(x, b, r), part(b, r)), c(W, slice(y, b, r), part(b, r)); ParVector z(W, 1.5, part(b, r)), zero(W, part(b, r)), none;
        double mean = a.GlobalSum() / n;
        num[r] = {a.GlobalSum(), a.Mult(c), Mult(a, c), a.L2Norm(), L2Norm(a), ParL2Norm(W, slice(x, b, r)), ParMult(W, slice(x, b, r), slice(y, b, r)), a.LocalSum(), (double)a.GlobalSize(), (double)none.GlobalSize(), form ? ParMult(slice(x, b, r), slice(y, b, r)) : a.Mult(c), z.GlobalSum(), zero.GlobalSum()};
        ParVector t(a); t += c; v[0][r] = plain(t); t = a; t -= c; v[1][r] = plain(t); t = a; t *= c; v[2][r] = plain(t); t = a; t /= c; v[3][r] = plain(t);
        t = a; SubAvg(t); v[4][r] = plain(t); t = 2.5; v[5][r] = plain(t); if (form) { t = std::move(c); } else { swap(t, c); } v[6][r] = plain(t); none = t; ParVector e(std::move(none)); v[7][r] = plain(e); v[8][r] = plain(z); (void)mean;
        ParVector empty, other(empty); num[r].push_back(other.size());
    });
    double sum = 0, xy = 0, xx = 0; for (int i = 0; i < n; ++i) { sum += x[i]; xy += x[i] * y[i]; xx += x[i] * x[i]; }
    auto close = [](double a, double e) { return std::fabs(a - e) <= 1e-14 * (1 + std::fabs(e)); };
    for (int r = 0; r < P; ++r)
    {
        double ls = 0; for (int i = b[r]; i < b[r + 1]; ++i) { ls += x[i]; }
        std::vector<double> e = {sum, xy, xy, std::sqrt(xx), std::sqrt(xx), std::sqrt(xx), xy, ls, (double)n, 0, xy, 1.5 * n, 0, 0};
        for (size_t k = 0; k < e.size(); ++k) { if (k == 10 && !form) { continue; } MC_CHECK(close(num[r][k], e[k]), "number ", k, where, " on rank ", r, " is ", num[r][k], ", serially ", e[k]); }
    }
    std::vector<double> e[N]; for (int i = 0; i < n; ++i) { e[0].push_back(x[i] + y[i]); e[1].push_back(x[i] - y[i]); e[2].push_back(x[i] * y[i]); e[3].push_back(x[i] / y[i]); e[4].push_back(x[i] - sum / n); e[5].push_back(2.5); e[6].push_back(y[i]); e[7].push_back(y[i]); e[8].push_back(1.5); }
    for (int k = 0; k < N; ++k) { for (int r = 0; r < P; ++r) { MC_CHECK((int)v[k][r].size() == b[r + 1] - b[r], "vector ", k, where); for (size_t i = 0; i < v[k][r].size(); ++i) { MC_CHECK(close(v[k][r][i], e[k][b[r] + i]), "vector ", k, where, ": entry ", b[r] + i, " is ", v[k][r][i], ", serially ", e[k][b[r] + i]); } } }
    mc::Hash h; h.c(x).c(b).u(s); mc::state(h); MC_STEP("vectors", where);
}
// histories of two distributed matrices
MC_SCENARIO(histories, 4)
{
    const int N = 2, OPS = 13; int depth = mc::thorough() ? 4 : 3; Ints b = mc::flag() ? Ints{0, 1, 3} : Ints{0, 2, 3}; M start[N] = {family(1, 3, 3), family(4, 3, 3)};
    std::vector<Ints> ops; for (int k = 0; k < depth; ++k) { int o = mc::choose(OPS), i = mc::choose(N); ops.push_back({o, i}); }
    where = mc::S(" (history ", ops, ", rows ", b, ")"); std::vector<double> x = ramp(3, 1);
    std::vector<std::vector<Piece>> p(N, std::vector<Piece>(2)); std::vector<std::vector<std::vector<double>>> v(N, std::vector<std::vector<double>>(2));
    go(2, ranks::alternating, [&](int r)
    {
        ParMatrix a[N] = {build(start[0], b, b, r, 0), build(start[1], b, b, r, 1)};
        for (auto& o : ops)
        {
            ParMatrix &m = a[o[1]], &other = a[1 - o[1]];
            switch (o[0])
            {
            case 0: m = other; break;
            case 1: { ParMatrix t(m); t *= 5; break; }
            case 2: { ParMatrix t(std::move(m)); m = std::move(t); break; }
            case 3: swap(m, other); break;
            case 4: m *= -2; break;
            case 5: m = m.Transpose(); break;
            case 6: m = m.Mult(other); break;
            case 7: m = ParAdd(2, m, -1, other); break;
            case 8: m.AddDiag(1.0); break;
            case 9: m.ScaleRows(std::vector<double>(m.Rows(), 0.5)); break;
            case 10: { std::vector<ParMatrix> w; w.push_back(m); w.push_back(other); w.push_back(m); m = w[2]; break; }
            case 11: m = m; break;
            case 12: std::swap(m, other); break;
            }
        }
        for (int k = 0; k < N; ++k) { p[k][r] = piece(a[k]); v[k][r] = plain(a[k].Mult(slice(x, b, r))); }
    });
    M m[N] = {start[0], start[1]};
    for (auto& o : ops)
    {
        M &a = m[o[1]], &c = m[1 - o[1]];
        switch (o[0])
        {
        case 0: a = c; break;
        case 3: case 12: std::swap(a, c); break;
        case 4: for (auto& t : a.a) { t *= -2; } break;
        case 5: a = a.T(); break;
        case 6: { M t = a.mul(c); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { for (int k = 0; k < 3; ++k) { if (a.s(i, k) && c.s(k, j)) { t.s(i, j) = 1; } } } for (int i = 0; i < 3; ++i) { t.s(i, i) = 1; } a = t; break; }       // a square product stores its diagonal
        case 7: for (int i = 0; i < 9; ++i) { a.a[i] = 2 * a.a[i] - c.a[i]; a.st[i] |= c.st[i]; } break;
        case 8: for (int i = 0; i < 3; ++i) { if (a.s(i, i)) { a(i, i) += 1; } } break;
        case 9: for (auto& t : a.a) { t *= 0.5; } break;
        }
    }
    for (int k = 0; k < N; ++k) { std::string w = mc::S("matrix ", k); same(gather(p[k], b, b, w), m[k], w); same(v[k], m[k].mul(x), b, w + " times a vector"); }
    mc::Hash h; h.u(m[0].hash()).u(m[1].hash()).c(b); mc::state(h); MC_STEP("history", where);
}
// the offsets of every combination of local sizes
MC_SCENARIO(offsets, 3)
{
    int P = 1 + mc::choose(4), k = 1 + mc::choose(P > 2 ? 2 : 3); std::vector<Ints> size(P); for (auto& q : size) { for (int i = 0; i < k; ++i) { q.push_back(mc::choose(P > 3 ? 2 : 3)); } } auto s = schedule();
    std::vector<std::vector<Ints>> out(P); std::vector<Ints> one(P);
    go(P, s, [&](int r) { out[r] = GenerateOffsets(W, size[r]); one[r] = GenerateOffsets(W, size[r][0]); });
    for (int r = 0; r < P; ++r) for (int i = 0; i < k; ++i)
    {
        int before = 0, all = 0; for (int q = 0; q < P; ++q) { all += size[q][i]; if (q < r) { before += size[q][i]; } }
        MC_CHECK((int)out[r].size() == k && out[r][i] == Ints({before, before + size[r][i], all}), "offsets of rank ", r, " of ", P, ", quantity ", i, ": ", out[r][i]);
        if (!i) { MC_CHECK(one[r] == out[r][0], "offsets of one size on rank ", r, ": ", one[r]); }
    }
    mc::Hash h; for (auto& q : size) { h.c(q); } mc::state(h); MC_STEP("offsets of ", size);
}
// systems solved and smoothed on every division
MC_SCENARIO(solvers, 5)
{
    int n = 1 + mc::choose(mc::thorough() ? 5 : 4), P = 1 + mc::choose(std::min(n, 3)); Ints b = divide(n, P); int kind = mc::choose(7), dense = mc::choose(2), rhs = mc::choose(3); auto s = schedule();
    M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) { m.set(i, j, 8 + 4 * (i % 3)); } else if (dense || std::abs(i - j) == 1) { m.set(i, j, -1 - (i + j) % 2); } }
    std::vector<double> x = ramp(n, rhs); if (rhs == 2) { x.assign(n, 0); } std::vector<double> f = m.mul(x), u = ramp(n, 1);
    std::vector<std::vector<double>> v(P), c(P); where = mc::S(" (rows ", b, ", kind ", kind, ", schedule ", s, ")");
    go(P, s, [&](int r)
    {
        ParMatrix a = build(m, b, b, r, 0); Vector<double> fl = slice(f, b, r), o = slice(u, b, r), o2 = slice(u, b, r);
        if (kind == 0) { ParCG cg(a, 1000, 1e-13); cg.Mult(fl, o); ParCG q(cg), t; t = q; t.Mult(fl, o2); }
        else if (kind == 1) { ParDiagScale d(a); ParCG cg(a, d, 1000, 1e-13); cg.Mult(fl, o); ParCG t(std::move(cg)); t.Mult(fl, o2); }
        else if (kind == 2) { ParCG cg(a, 1000, 1e-13); cg.EnableDiagScaling(); cg.Mult(fl, o); ParCG t, e; t = std::move(cg); swap(t, e); ParCG q(e); q.Mult(fl, o2); }
        else if (kind == 3) { ParDiagScale d(a); ParDiagScale t(d), e; d.Mult(fl, o); e = t; e.Mult(fl, o2); }
        else if (kind == 6) { ParCG cg(a, n > 1 ? 1 : 2, n > 2 ? 0.5 : 1e-13); cg.Mult(fl, o); ParCG q(cg), t; t = q; t.Mult(fl, o2); }   // a copy keeps the limit and the tolerance
        else
        {
            ParSmoother d(a, kind == 4 ? SmoothType::Jacobi : SmoothType::L1_Jacobi, 2, 0.5); d.Mult(fl, o); ParSmoother t(d), e, g; e = t; swap(e, g); ParSmoother z(std::move(g)); z.Mult(fl, o2);
        }
        v[r] = plain(o); c[r] = plain(o2);
    });
    std::vector<double> e = x;
    if (kind == 3) { for (int i = 0; i < n; ++i) { e[i] = f[i] / m(i, i); } }
    if (kind == 6) { for (int r = 0; r < P; ++r) { for (size_t i = 0; i < v[r].size(); ++i) { MC_CHECK(v[r][i] == c[r][i], m.str(), where, ": after one step entry ", b[r] + i, " is ", v[r][i], ", by a copy of the solver ", c[r][i]); } } count(m, b, b, 99 + rhs); return; }
    if (kind > 3) { e = u; for (int k = 0; k < 2; ++k) { auto q = m.mul(e); for (int i = 0; i < n; ++i) { double d = m(i, i); if (kind == 5) { d = 0; for (int j = 0; j < n; ++j) { d += std::fabs(m(i, j)); } } e[i] += 0.5 * (f[i] - q[i]) / d; } } }
    for (int r = 0; r < P; ++r) { for (size_t i = 0; i < v[r].size(); ++i) { double t = e[b[r] + i]; MC_CHECK(std::fabs(v[r][i] - t) < 1e-10 * (1 + std::fabs(t)), m.str(), where, ": entry ", b[r] + i, " is ", v[r][i], ", serially ", t); MC_CHECK(std::fabs(c[r][i] - t) < 1e-10 * (1 + std::fabs(t)), m.str(), where, ", copied or moved: entry ", b[r] + i, " is ", c[r][i], ", serially ", t); } }
    count(m, b, b, kind * 16 + rhs * 4 + dense);
}
