// C04: coordinate and list-of-rows assembly.
#include "lin.hpp"
#include "huge.hpp"
using namespace lin;
namespace
{
struct Ref                                  // the list of contributions
{
    bool sized = false;
    int r = 0, c = 0;
    struct E { int i, j; double v; };
    std::vector<E> e;
    void size(int& rr, int& cc) const
    {
        if (sized) { rr = r; cc = c; return; }
        rr = cc = 1;
        for (auto& x : e) { rr = std::max(rr, x.i + 1); cc = std::max(cc, x.j + 1); }
    }
    M table() const
    {
        int rr, cc;
        size(rr, cc);
        M m(rr, cc);
        for (auto& x : e) { m(x.i, x.j) += x.v; m.s(x.i, x.j) = 1; }
        return m;
    }
    void add(int i, int j, double v) { e.push_back({i, j, v}); }
    uint64_t hash() const { mc::Hash h; h.u(sized).u(r).u(c); for (auto& x : e) { h.u(x.i).u(x.j).d(x.v); } return h; }
};

template <typename T> struct IsCoo { static const bool v = false; };
template <typename T> struct IsCoo<CooMatrix<T>> { static const bool v = true; };

template <typename Mat, typename T>
void check_one(const Mat& a, const Ref& ref, int what)
{
    M m = ref.table();
    switch (what)
    {
    case 0: same_sparse(a.ToSparse(), m, "conversion to compressed rows", true); break;
    case 1: { same_dense(a.ToDense(), m, "conversion to dense"); break; }
    case 2: { DenseMatrix d(m.c + 1, m.r, std::vector<double>((m.c + 1) * m.r, nan())); a.ToDense(d); same_dense(d, m, "conversion to a reused dense matrix"); break; }
    case 3:
    {
        auto x = ramp(m.c, 1);
        const Operator& op = a;
        MC_CHECK(op.Rows() == m.r && op.Cols() == m.c, "reports ", op.Rows(), "x", op.Cols(), ", expected ", m.r, "x", m.c);
        same_vec(op.Mult(vec(x)), m.mul(x), "product");
        Vector<double> out(m.r, nan());
        a.Mult(vec(x), VectorView<double>(out));
        same_vec(out, m.mul(x), "product into a view");
        break;
    }
    case 4:
    {
        auto x = ramp(m.r, 2);
        const Operator& op = a;
        same_vec(op.MultAT(vec(x)), m.T().mul(x), "transposed product");
        Vector<double> out(m.c, nan());
        a.MultAT(vec(x), VectorView<double>(out));
        same_vec(out, m.T().mul(x), "transposed product into a view");
        break;
    }
    case 5: same_sparse(a.template ToSparse<double>(), m, "conversion to compressed rows of reals", true); break;
    }
}
template <typename Mat, typename T>
void check_all(const Mat& a, const Ref& ref) { for (int k = 0; k < 6; ++k) { check_one<Mat, T>(a, ref, k); } }

DenseMatrix block(int r, int c, int seed, M& m)
{
    m = M(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m(i, j) = cell(i, j, seed); }
    return dense(m);
}

template <typename T> void coo_ops(CooMatrix<T>& a, Ref& ref, std::ostringstream& o)
{
    int R, C;
    ref.size(R, C);
    int op = mc::choose(9);
    M m;
    const T sc = (T)(std::is_same<T, int>::value ? -2 : -0.5);
    switch (op)
    {
    case 0: { std::vector<int> ix = {1, 0}; auto d = block(2, 2, 4, m); a.Add(ix, sc, d); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { ref.add(ix[i], ix[j], sc * m(i, j)); } o << "scaled square block"; break; }
    case 1: { std::vector<int> ri = {2}, ci = {0, 2, 0}; auto d = block(1, 3, 5, m); a.Add(ri, ci, sc, d); for (int j = 0; j < 3; ++j) { ref.add(2, ci[j], sc * m(0, j)); } o << "scaled 1x3 block"; break; }
    case 2: { std::vector<int> ri = {2, 0}; Vector<T> v = vec<T>({3, -1}); a.Add(ri, 1, v); ref.add(2, 1, 3); ref.add(0, 1, -1); o << "column vector"; break; }
    case 3: { std::vector<int> ci = {2, 0, 1}; Vector<T> v = vec<T>({3, -1, 2}); a.Add(1, ci, v); ref.add(1, 2, 3); ref.add(1, 0, -1); ref.add(1, 1, 2); o << "row vector"; break; }
    case 4: { std::vector<int> ri = {0, 0}; Vector<T> v = vec<T>({4, 2}); a.Add(ri, 2, sc, v); ref.add(0, 2, sc * 4.0); ref.add(0, 2, sc * 2.0); o << "scaled column vector"; break; }
    case 5: { std::vector<int> ci = {1, 2}; Vector<T> v = vec<T>({4, 2}); a.Add(2, ci, sc, v); ref.add(2, 1, sc * 4.0); ref.add(2, 2, sc * 2.0); o << "scaled row vector"; break; }
    case 6: { std::vector<int> ri = {0, 2, 0}, ci = {1, 0, 1}; std::vector<T> v = {5, 6, -5}; a.Add(ri, ci, v); for (int k = 0; k < 3; ++k) { ref.add(ri[k], ci[k], (double)v[k]); } o << "list of positions"; break; }
    case 7: { std::vector<int> ri = {2, 1}, ci = {2, 0}; Vector<T> v = vec<T>({4, 2}); a.Add(ri, ci, sc, v); ref.add(2, 2, sc * 4.0); ref.add(1, 0, sc * 2.0); o << "scaled list of positions"; break; }
    case 8:
    {
        int k = mc::choose(3);
        std::vector<int> pr(R), pc(C);
        for (int i = 0; i < R; ++i) { pr[i] = (i + 1) % R; }
        for (int j = 0; j < C; ++j) { pc[j] = C - 1 - j; }
        if (k == 0) { a.PermuteRows(pr); } else if (k == 1) { a.PermuteCols(pc); } else { a.PermuteRowsCols(pr, pc); }
        for (auto& x : ref.e) { if (k != 1) { x.i = pr[x.i]; } if (k != 0) { x.j = pc[x.j]; } }
        o << "permute " << k;
        break;
    }
    }
}
template <typename T> void coo_ops(LilMatrix<T>&, Ref&, std::ostringstream&) { mc::prune(); }

// One operation.  The declared size, if any, is at least 3x3.
template <typename Mat, typename T>
std::string operation(Mat& a, Ref& ref)
{
    std::ostringstream o;
    int R, C;
    ref.size(R, C);
    M m;
    switch (mc::choose(10))
    {
    case 0:
    {
        static const int P[6][2] = {{0, 0}, {0, 2}, {1, 0}, {2, 1}, {1, 1}, {2, 2}};
        int p = mc::choose(6);
        double v = std::is_same<T, int>::value ? mc::pick({2.0, -1.0}) : mc::pick({2.0, -0.25});
        a.Add(P[p][0], P[p][1], (T)v);
        ref.add(P[p][0], P[p][1], v);
        o << "Add(" << P[p][0] << "," << P[p][1] << "," << v << ")";
        break;
    }
    case 1:
    {
        int p = mc::choose(3);
        static const int P[3][2] = {{2, 0}, {1, 1}, {0, 1}};
        a.AddSym(P[p][0], P[p][1], (T)3);
        ref.add(P[p][0], P[p][1], 3);
        if (P[p][0] != P[p][1]) { ref.add(P[p][1], P[p][0], 3); }
        o << "AddSym(" << P[p][0] << "," << P[p][1] << ",3)";
        break;
    }
    case 2: { std::vector<int> ix = {2, 0}; auto d = block(2, 2, 1, m); a.Add(ix, d); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { ref.add(ix[i], ix[j], m(i, j)); } o << "square block on {2,0}"; break; }
    case 3: { std::vector<int> ri = {1, 2, 1}, ci = {0, 1}; auto d = block(3, 2, 2, m); a.Add(ri, ci, d); for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { ref.add(ri[i], ci[j], m(i, j)); } o << "3x2 block on rows {1,2,1}"; break; }
    case 4: { coo_ops(a, ref, o); break; }
    case 5:
    {
        int k = mc::choose(2), r = k ? 5 : 3, c = k ? 3 : 4;
        if (r < R && ref.sized) { mc::prune(); }
        for (auto& x : ref.e) { if (x.i >= r || x.j >= c) { mc::prune(); } }
        a.SetSize(r, c);
        ref.sized = true; ref.r = r; ref.c = c;
        o << "SetSize(" << r << "," << c << ")";
        break;
    }
    case 6:
    {
        double tol = mc::pick({0.0, 1.0, 2.0});
        Ref keep = ref;
        ref.e.erase(std::remove_if(ref.e.begin(), ref.e.end(), [&](const Ref::E & x) { return std::fabs(x.v) <= tol; }), ref.e.end());
        int R2, C2;
        ref.size(R2, C2);
        if (R2 != R || C2 != C) { mc::prune(); }     // an undeclared size would depend on dropped entries
        if (tol == 0 && mc::flag()) { a.EliminateZeros(); } else { a.EliminateZeros(tol); }
        o << "EliminateZeros(" << tol << ")";
        break;
    }
    case 7: { int w = mc::choose(3); check_one<Mat, T>(a, ref, w == 0 ? 0 : w == 1 ? 4 : 2); o << "convert/apply " << w; break; }
    case 8:
    {
        int k = mc::choose(3);
        if (k == 0) { Mat b(a); b.Add(0, 0, (T)77); a = Mat(a); }
        if (k == 1) { Mat b(std::move(a)); Mat c; c = b; a = std::move(c); }
        if (k == 2) { Mat b(4, 4); b.Add(3, 3, (T)1); swap(a, b); a.Add(0, 3, (T)5); swap(a, b); Ref rb; rb.sized = true; rb.r = rb.c = 4; rb.add(3, 3, 1); rb.add(0, 3, 5); check_all<Mat, T>(b, rb); }
        o << "copy/move " << k;
        break;
    }
    case 9: { a.Add(0, 0, (T)0); ref.add(0, 0, 0); o << "Add(0,0,0)"; break; }
    }
    return o.str();
}

template <typename Mat, typename T>
void history(int depth)
{
    int start = mc::choose(3), eager = mc::choose(2);
    Ref ref;
    Mat a = start == 0 ? Mat() : start == 1 ? Mat(3) : Mat(3, 5);
    if (start) { ref.sized = true; ref.r = 3; ref.c = start == 1 ? 3 : 5; }
    MC_TRACE(start == 0 ? "undeclared size" : start == 1 ? "3x3" : "3x5", eager ? ", checked after every operation" : ", checked at the end");
    for (int d = 0; d < depth; ++d)
    {
        std::string o = operation<Mat, T>(a, ref);
        MC_STEP(o);
        mc::state(ref.hash());
        if (eager) { check_all<Mat, T>(a, ref); }
    }
    check_all<Mat, T>(a, ref);
}

// all multisets of contributions in all orders
template <typename Mat, typename T>
void orders()
{
    int n = mc::choose(mc::thorough() ? 7 : 6), sized = mc::choose(2);
    Mat a = sized ? Mat(2, 3) : Mat();
    Ref ref;
    if (sized) { ref.sized = true; ref.r = 2; ref.c = 3; }
    for (int k = 0; k < n; ++k)
    {
        int p = mc::choose(6);
        double v = 1 << k;
        a.Add(p / 3, p % 3, (T)v);
        ref.add(p / 3, p % 3, v);
    }
    MC_STEP(n, " contributions");
    mc::state(mc::Hash().u(ref.hash()).u(9));
    check_all<Mat, T>(a, ref);
}

template <typename Mat, typename T>
void family_asm()
{
    int n = mc::pick({4, 9, 16, 17, 33, 64, 65, 100, 129});
    int f = mc::choose(NFAM), dup = mc::choose(3), sized = mc::choose(2), sym = mc::choose(2);
    int r = n, c = sym ? n : n / 2 + 1;
    M m = family(f, r, c);
    Ref ref;
    Mat a = sized ? Mat(r, c) : Mat();
    if (sized) { ref.sized = true; ref.r = r; ref.c = c; }
    for (int pass = 0; pass <= dup; ++pass)
    {
        for (int k = 0; k < r * c; ++k)
        {
            int q = pass % 2 ? r * c - 1 - k : k, i = q / c, j = q % c;
            if (!m.s(i, j) || (pass && (i + j + pass) % 3 == 0)) { continue; }
            if (sym && i <= j) { a.AddSym(i, j, (T)m(i, j)); ref.add(i, j, m(i, j)); if (i != j) { ref.add(j, i, m(i, j)); } }
            else if (!sym) { a.Add(i, j, (T)m(i, j)); ref.add(i, j, m(i, j)); }
        }
        if (pass == 0 && dup == 2) { check_one<Mat, T>(a, ref, 0); }
    }
    MC_STEP("assembled ", FAM[f], " ", r, "x", c, " passes ", dup + 1);
    mc::state(mc::Hash().u(n).u(f).u(dup).u(sized).u(sym));
    check_all<Mat, T>(a, ref);
}
}

MC_SCENARIO(coo_histories, 4) { history<CooMatrix<double>, double>(mc::thorough() ? 4 : 3); }
MC_SCENARIO(coo_int_histories, 4) { history<CooMatrix<int>, int>(mc::thorough() ? 3 : 2); }
MC_SCENARIO(lil_histories, 4) { history<LilMatrix<double>, double>(mc::thorough() ? 4 : 3); }
MC_SCENARIO(lil_int_histories, 4) { history<LilMatrix<int>, int>(mc::thorough() ? 3 : 2); }
MC_SCENARIO(coo_orders, 4) { orders<CooMatrix<double>, double>(); }
MC_SCENARIO(lil_orders, 4) { orders<LilMatrix<double>, double>(); }
MC_SCENARIO(coo_families, 3) { family_asm<CooMatrix<double>, double>(); }
MC_SCENARIO(lil_families, 3) { family_asm<LilMatrix<double>, double>(); }
MC_SCENARIO(lil_int_families, 3) { family_asm<LilMatrix<int>, int>(); }

// entries of unusual magnitude and precision; contributions to one position stay exactly summable
namespace
{
template <typename Mat> void magnitudes_asm()
{
    int r = mc::pick({1, 2, 3, 5}), c = mc::pick({1, 2, 4}), f = mc::choose(NFAM), mode = mc::choose(NMAG), sized = mc::choose(2), dup = mc::choose(2);
    M m = magnified(family(f, r, c), mode);
    Ref ref;
    Mat a = sized ? Mat(r, c) : Mat();
    if (sized) { ref.sized = true; ref.r = r; ref.c = c; }
    for (int pass = 0; pass <= dup; ++pass) for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (m.s(i, j)) { double v = pass ? 2 * m(i, j) : m(i, j); a.Add(i, j, v); ref.add(i, j, v); }
    MC_STEP("assembled ", m.str());
    mc::state(ref.hash());
    check_all<Mat, double>(a, ref);
    Mat z(a);                                            // dropping entries drops those of the tolerance and below only
    double tol = mode == 1 ? std::ldexp(6.0, -200) : mode == 3 ? std::ldexp(3.0, -30) : mode == 0 ? 4.0 : std::ldexp(2.0, 200);
    if (mc::flag()) { tol = 0; }
    int R, C, R2, C2;
    ref.size(R, C);
    ref.e.erase(std::remove_if(ref.e.begin(), ref.e.end(), [&](const Ref::E & x) { return std::fabs(x.v) <= tol; }), ref.e.end());
    ref.size(R2, C2);
    if (R2 == R && C2 == C) { z.EliminateZeros(tol); check_all<Mat, double>(z, ref); }
}
}
MC_SCENARIO(coo_magnitudes, 3) { magnitudes_asm<CooMatrix<double>>(); }
MC_SCENARIO(lil_magnitudes, 3) { magnitudes_asm<LilMatrix<double>>(); }

// thousands of contributions, rows and columns; duplicates everywhere
namespace
{
template <typename Mat> void large_asm()
{
    static const int R[] = {257, 257, 1025, 4, 4100, 1, 1030}, C[] = {257, 257, 1025, 4100, 3, 9000, 1}, F[] = {1, 3, 9, 2, 10, 10, 2};
    int k = mc::choose(mc::thorough() ? 8 : 7), f = k == 7 ? mc::choose(6) : F[k], sized = mc::choose(2), dup = mc::choose(3);
    if (k == 7) { k = 2; }
    M m = family(f, R[k], C[k]);
    Ref ref;
    Mat a = sized ? Mat(m.r, m.c) : Mat();
    if (sized) { ref.sized = true; ref.r = m.r; ref.c = m.c; }
    for (int pass = 0; pass <= dup; ++pass)
    {
        long n = (long)m.r * m.c;
        for (long q = 0; q < n; ++q) { long x = pass == 1 ? n - 1 - q : q; int i = (int)(x / m.c), j = (int)(x % m.c); if (m.s(i, j) && !(pass == 2 && (i + j) % 3)) { a.Add(i, j, m(i, j)); ref.add(i, j, m(i, j)); } }
    }
    MC_STEP("assembled ", FAM[f], " ", m.r, "x", m.c, " passes ", dup + 1);
    mc::state(mc::Hash().u(k).u(f).u(dup).u(sized).u(77));
    check_all<Mat, double>(a, ref);
    int R0, C0, R1, C1; ref.size(R0, C0);
    ref.e.erase(std::remove_if(ref.e.begin(), ref.e.end(), [](const Ref::E & x) { return std::fabs(x.v) <= 2; }), ref.e.end());
    ref.size(R1, C1);
    if (R0 == R1 && C0 == C1) { a.EliminateZeros(2); check_one<Mat, double>(a, ref, 0); }
}
}
MC_SCENARIO(coo_large, 3) { large_asm<CooMatrix<double>>(); }
MC_SCENARIO(lil_large, 3) { large_asm<LilMatrix<double>>(); }
namespace
{
// shapes with more cells than an int can count
template <typename Mat> void huge_asm()
{
    int k = mc::choose(huge::SHAPES), sized = mc::choose(2), order = mc::choose(3), form = mc::choose(3); huge::H h = huge::make(k, 3), w = h;
    if (order == 2) { for (auto& x : w.e) { x.second *= 2; } }
    Mat a = sized ? Mat(h.r, h.c) : Mat(); std::vector<std::pair<std::pair<int, int>, double>> l(h.e.begin(), h.e.end());
    if (order) { std::reverse(l.begin(), l.end()); if (order == 2) { l.insert(l.end(), h.e.begin(), h.e.end()); } }
    for (auto& x : l) { a.Add(x.first.first, x.first.second, x.second); }
    if (form == 0) { huge::same(a.ToSparse(), w, "conversion to compressed rows"); }
    else if (form == 1) { auto x = iramp(h.c, 1), y = iramp(h.r, 2); const Operator& op = a; huge::same_long(op.Mult(vec(x)), w.mul(x), "product"); huge::same_long(op.MultAT(vec(y)), w.T().mul(y), "transposed product"); }
    else { a.EliminateZeros(5); if (order < 2) { for (auto i = w.e.begin(); i != w.e.end();) { i = std::fabs(i->second) > 5 ? std::next(i) : w.e.erase(i); } } if (sized && order < 2) { huge::same(a.ToSparse(), w, "conversion after elimination"); } }
    mc::state(mc::Hash().u(k).u(sized).u(order).u(form).u(504)); MC_STEP(h.r, "x", h.c, " sized ", sized, " order ", order, " form ", form);
}
}
MC_SCENARIO(coo_huge, 3) { huge_asm<CooMatrix<double>>(); }
MC_SCENARIO(lil_huge, 3) { huge_asm<LilMatrix<double>>(); }
