# Planted changes (source of /verif/seeded; tools/mkseed.py writes and confirms them).
SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
H = 'include/sparsematrix.hpp'
S('C01-multat-dense-stale', 'C01', [(H, '''    output.SetSize(cols_, input.Cols());
    output = 0.0;

    for (int k = 0; k < input.Cols(); ++k)
    {
        for (int i = 0; i < rows_; ++i)
        {
            for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
            {
                output(indices_[j], k) += data_[j] * input(i, k);''', '''    if (output.Rows() != cols_ || output.Cols() != input.Cols())
    {
        output = DenseMatrix(cols_, input.Cols());
    }

    for (int k = 0; k < input.Cols(); ++k)
    {
        for (int i = 0; i < rows_; ++i)
        {
            for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
            {
                output(indices_[j], k) += data_[j] * input(i, k);''')],
  'the transposed product with a dense matrix is stored into an output that already has the right shape and holds values',
  'A^T B accumulates onto what the output held before',
  '''int main() { SparseMatrix<double> A({0, 1, 2}, {0, 2}, {1., 2.}, 2, 3); DenseMatrix B(2, 1); B(0, 0) = 1; B(1, 0) = 1; DenseMatrix C(3, 1);
 A.MultAT(B, C); NEED(C(0, 0) == 1 && C(2, 0) == 2); A.MultAT(B, C); NEED(C(0, 0) == 1 && C(1, 0) == 0 && C(2, 0) == 2); }''')
S('C02-marker-second-pass', 'C02', [(H, '''    std::fill(begin(marker), end(marker), -1);

    std::vector<int> out_indices(out_nnz);
    std::vector<V> out_data(out_nnz);
''', '''    std::vector<int> out_indices(out_nnz);
    std::vector<V> out_data(out_nnz);
''')],
  'a product whose left factor has rows with fewer than one entry per row before a filled one (empty leading rows), so that the row number left in the marker is not below the running entry count',
  'the second pass trusts markers left by the first: entries are accumulated into the wrong slot and missing from the result',
  '''int main() { SparseMatrix<double> A({0, 0, 0, 1}, {0}, {3.}, 3, 2); SparseMatrix<double> B({0, 2, 2}, {0, 1}, {5., 7.}, 2, 2);
 auto C = A.Mult(B).ToDense(); NEED(C(2, 0) == 15 && C(2, 1) == 21 && C(0, 0) == 0 && C(1, 1) == 0); }''')
S('C03-submatrix-workspace', 'C03', [(H, '''    std::vector<int> out_indices(out_nnz);
    std::vector<T> out_data(out_nnz);

    int total = 0;

    for (auto row : rows)''', '''    if (out_nnz == 0)
    {
        return SparseMatrix<T>(out_rows, out_cols);
    }

    std::vector<int> out_indices(out_nnz);
    std::vector<T> out_data(out_nnz);

    int total = 0;

    for (auto row : rows)''')],
  'two extractions sharing a workspace, the first of which selects no stored entry',
  'the shortcut for an empty submatrix leaves the workspace marked, so the next extraction sees columns nobody asked for',
  '''int main() { SparseMatrix<double> A({0, 0, 2}, {0, 1}, {5., 7.}, 2, 2); std::vector<int> w(2, -1);
 auto e = A.GetSubMatrix({0}, {1, 0}, w); NEED(e.nnz() == 0); auto s = A.GetSubMatrix({1}, {1}, w); NEED(s.Rows() == 1 && s.Cols() == 1 && s.nnz() == 1); NEED(s.GetIndices()[0] == 0 && s.GetData()[0] == 7); }''')
S('C05-abt-leading-dimension', 'C05', [('src/densematrix.cpp', '    int ldb = input.Rows();', '    int ldb = BT ? k : input.Rows();')],
  'A B^T or A^T B^T where B has more columns than rows',
  'the leading dimension of a transposed right operand is taken from the inner dimension; square operands are unaffected',
  '''int main() { DenseMatrix A(1, 3), B(2, 3); for (int j = 0; j < 3; ++j) { A(0, j) = j + 1; B(0, j) = 1; B(1, j) = 10 * (j + 1); }
 auto C = A.MultBT(B); NEED(C.Rows() == 1 && C.Cols() == 2 && C(0, 0) == 6 && C(0, 1) == 140); }''')
S('C01-int-accumulator', 'C01', [(H, '''        V val = 0;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            val += data_[j] * input[indices_[j]];''', '''        T val = 0;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            val += data_[j] * input[indices_[j]];''')],
  'a matrix with integer entries applied to a vector of doubles with fractional values',
  'the row sum is accumulated in the entry type of the matrix, which truncates after every term',
  '''int main() { SparseMatrix<int> A({0, 2}, {0, 1}, {1, 3}, 1, 2); Vector<double> x(2), y(1); x[0] = 0.5; x[1] = 0.75; A.Mult(x, y); NEED(y[0] == 2.75); }''')
S('C01-block-skip-empty-cols', 'C01', [(H, '''    assert(input.size() == rows_);
    assert(output.size() == cols_);

    std::fill(std::begin(output), std::end(output), 0.0);

    for (int i = 0; i < rows_; ++i)
    {
''', '''    assert(input.size() == rows_);
    assert(output.size() == cols_);

    if (data_.empty())
    {
        return;
    }

    std::fill(std::begin(output), std::end(output), 0.0);

    for (int i = 0; i < rows_; ++i)
    {
''')],
  'the transposed product of a matrix without stored entries into a vector that holds values',
  'the shortcut leaves the output as it was instead of zero',
  '''int main() { SparseMatrix<double> Z(2, 3); Vector<double> x(2, 1.0), y(3, 7.0); Z.MultAT(x, y); NEED(y[0] == 0 && y[1] == 0 && y[2] == 0); }''')
S('C02-workspace-partly-reset', 'C02', [(H, '''    marker.resize(rhs.Cols());
    std::fill(begin(marker), end(marker), -1);

    std::vector<int> out_indptr(rows_ + 1);''', '''    marker.resize(rhs.Cols());
    std::fill(begin(marker), begin(marker) + std::min(std::max(rows_, cols_), rhs.Cols()), -1);

    std::vector<int> out_indptr(rows_ + 1);''')],
  'a product whose right factor has more columns than either dimension of the left one',
  'marks of the trailing columns are not reset, so their entries in row 0 are not counted and the result overruns its storage',
  '''int main() { SparseMatrix<double> I({0, 1}, {0}, {2.}, 1, 1), B({0, 2}, {0, 1}, {5., 7.}, 1, 2);
 auto C = I.Mult(B); NEED(C.nnz() == 2); auto D = C.ToDense(); NEED(D(0, 0) == 10 && D(0, 1) == 14); }''')
S('C02-int-product-type', 'C02', [(H, '''                    out_data[total] = data_[j] * rhs_data[k];''', '''                    out_data[total] = data_[j] * static_cast<T>(rhs_data[k]);''')],
  'an integer matrix times a matrix of doubles with fractional values',
  'the first contribution to an entry is computed in the entry type of the left factor',
  '''int main() { SparseMatrix<int> A({0, 1}, {0}, {3}, 1, 1); SparseMatrix<double> B({0, 1}, {0}, {0.5}, 1, 1); auto C = A.Mult<double, double>(B); NEED(C.GetData()[0] == 1.5); }''')
S('C03-sort-shortcut', 'C03', [(H, '''        const int start = indptr_[i];
        const int end = indptr_[i + 1];

        std::sort(begin(permutation) + start,''', '''        const int start = indptr_[i];
        const int end = indptr_[i + 1];

        if (start == end || indices_[start] < indices_[end - 1])
        {
            continue;
        }

        std::sort(begin(permutation) + start,''')],
  'a row with at least three entries whose first column is below its last but which is out of order in between',
  'such rows are taken for sorted and left alone',
  '''int main() { SparseMatrix<double> A({0, 4}, {0, 2, 1, 3}, {1., 2., 3., 4.}, 1, 4); A.SortIndices(); for (int j = 0; j < 4; ++j) NEED(A.GetIndices()[j] == j); NEED(A.GetData()[1] == 3 && A.GetData()[2] == 2); }''')
S('C03-submatrix-repeated-rows', 'C03', [(H, '''    for (auto row : rows)
    {
        for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
        {
            if (marker[indices_[j]] != -1)
            {
                out_indices[total] = marker[indices_[j]];
                out_data[total] = data_[j];

                total++;
            }
        }
    }

    for (auto i : cols)
    {
        marker[i] = -1;
    }
''', '''    for (auto row : rows)
    {
        for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
        {
            if (marker[indices_[j]] != -1)
            {
                out_indices[total] = marker[indices_[j]];
                out_data[total] = data_[j];

                total++;
            }
        }
    }

    for (int i = 0; i < total; ++i)
    {
        marker[cols[out_indices[i]]] = -1;
    }
''')],
  'a workspace reused after an extraction in which some requested column held no entry of the requested rows',
  'only the columns that occurred are unmarked, so a later extraction with the same workspace sees the others',
  '''int main() { SparseMatrix<double> A({0, 1, 3}, {0, 0, 1}, {4., 5., 7.}, 2, 2); std::vector<int> w(2, -1);
 auto e = A.GetSubMatrix({0}, {0, 1}, w); NEED(e.nnz() == 1); auto s = A.GetSubMatrix({1}, {0}, w); NEED(s.nnz() == 1 && s.GetData()[0] == 5); }''')
L = 'include/lilmatrix.hpp'
O = 'include/coomatrix.hpp'
S('C04-lil-merge-across-rows', 'C04', [(L, '''            if (static_cast<int>(indices.size()) != current_row
                && j == indices.back())''', '''            if (!indices.empty() && j == indices.back())''' ), (L, '''        const int current_row = indptr[i];

''', '')],
  'a row whose first column equals the last column of the row before',
  'entries of neighbouring rows are merged when a list matrix is made sparse',
  '''int main() { LilMatrix<double> A(2, 2); A.Add(0, 1, 3.); A.Add(1, 1, 4.); auto S = A.ToSparse(); NEED(S.nnz() == 2); auto D = S.ToDense(); NEED(D(0, 1) == 3 && D(1, 1) == 4); }''')
S('C04-coo-sparse-width', 'C04', [(O, '''        const U val = std::get<2>(tup);

        int index''', '''        const U val = static_cast<int>(std::get<2>(tup)) == std::get<2>(tup) ? std::get<2>(tup) : static_cast<float>(std::get<2>(tup));

        int index''')],
  'entries that are not whole numbers and not representable in single precision',
  'fractional entries are rounded to single precision on conversion',
  '''int main() { CooMatrix<double> A(1, 1); A.Add(0, 0, 0.1); NEED(A.ToSparse().GetData()[0] == 0.1); }''')
S('C04-coo-adjacent-merge', 'C04', [(O, '''    entries_.emplace_back(i, j, val);
}''', '''    if (!entries_.empty() && std::get<0>(entries_.back()) == i && std::get<1>(entries_.back()) == j)
    {
        std::get<2>(entries_.back()) = val;
        return;
    }

    entries_.emplace_back(i, j, val);
}''')],
  'the same coordinate added twice in a row',
  'the second value replaces the first instead of being summed with it',
  '''int main() { CooMatrix<double> A(2, 2); A.Add(1, 0, 2.); A.Add(1, 0, 3.); NEED(A.ToDense()(1, 0) == 5.); NEED(A.ToSparse().ToDense()(1, 0) == 5.); }''')
D = 'src/densematrix.cpp'
DH = 'include/densematrix.hpp'
S('C05-equality-relative', 'C05', [(D, '''            if (std::fabs((*this)(i, j) - other(i, j)) > tol)''', '''            if (std::fabs((*this)(i, j) - other(i, j)) > tol * std::max(1.0, std::fabs((*this)(i, j) * other(i, j))))''')],
  'two matrices with large entries that differ by more than the tolerance but by little relative to their product',
  'matrices that differ compare equal',
  '''int main() { DenseMatrix A(1, 1), B(1, 1); A(0, 0) = 1e5; B(0, 0) = 1e5 + 1e-3; NEED(!(A == B)); }''')
S('C05-skip-zero-input', 'C05', [(DH, '''    for (int j = 0; j < cols_; ++j)
    {
        U val = 0;

        for (int i = 0; i < rows_; ++i)
        {
            val += (*this)(i, j) * input[i];
        }

        output[j] = val;
    }''', '''    if (rows_ == 0)
    {
        return;
    }

    for (int j = 0; j < cols_; ++j)
    {
        U val = 0;

        for (int i = 0; i < rows_; ++i)
        {
            val += (*this)(i, j) * input[i];
        }

        output[j] = val;
    }''')],
  'the transposed product of a matrix without rows into a vector that holds values',
  'the output keeps its previous contents instead of zero',
  '''int main() { DenseMatrix A(0, 2); Vector<double> x(0), y(2, 7.0); A.MultAT(x, VectorView<double>(y)); NEED(y[0] == 0 && y[1] == 0); }''')
S('C05-inverse-scale-int', 'C05', [(DH, '''            assert(values[i] != 0.0);

            (*this)(i, j) /= values[i];''', '''            assert(values[i] != 0.0);

            (*this)(i, j) *= 1 / values[i];''')],
  'rows divided by a vector of integers',
  'the reciprocal of an integer is computed as an integer',
  '''int main() { DenseMatrix A(1, 1); A(0, 0) = 3; std::vector<int> v(1, 2); A.InverseScaleRows(v); NEED(A(0, 0) == 1.5); }''')
S('C06-copydata-tail', 'C06', [(D, '''    data.resize(data_.size());
    std::copy(''', '''    if (data.size() < data_.size())
    {
        data.resize(data_.size());
    }

    std::copy(''')],
  'the data of a matrix copied into an array that is longer than the matrix',
  'the array keeps its old length and trailing values',
  '''int main() { DenseMatrix A(1, 2); A(0, 0) = 1; A(0, 1) = 2; std::vector<double> v(5, 9.0); A.CopyData(v); NEED(v.size() == 2 && v[0] == 1 && v[1] == 2); }''')
S('C06-addsub-repeated', 'C06', [(D, '''    int num_rows = dense.Rows();
    int num_cols = dense.Cols();

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = 0; i < num_rows; ++i)
        {
            (*this)(rows[i], cols[j]) += dense(i, j);''', '''    int num_rows = dense.Rows();
    int num_cols = dense.Cols();
    const DenseMatrix previous = GetSubMatrix(rows, cols);

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = 0; i < num_rows; ++i)
        {
            (*this)(rows[i], cols[j]) = previous(i, j) + dense(i, j);''')],
  'a block added through index lists that name one row or column twice',
  'the second contribution to the same entry overwrites the first',
  '''int main() { DenseMatrix A(2, 1), B(2, 1); B(0, 0) = 1; B(1, 0) = 2; std::vector<int> r = {1, 1}, c = {0}; A.AddSubMatrix(r, c, B); NEED(A(1, 0) == 3 && A(0, 0) == 0); }''')
S('C06-transpose-square', 'C06', [(D, '''    transpose.SetSize(cols_, rows_);

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = 0; j < cols_; ++j)
        {
            transpose(j, i) = (*this)(i, j);''', '''    transpose.SetSize(cols_, rows_);

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = 0; j < cols_; ++j)
        {
            if ((*this)(i, j) == 0.0)
            {
                continue;
            }

            transpose(j, i) = (*this)(i, j);''')],
  'a matrix with zero entries transposed into a matrix that already holds values',
  'zero entries are skipped and the old values remain',
  '''int main() { DenseMatrix A(1, 2), T(2, 1); A(0, 1) = 5; T(0, 0) = 7; T(1, 0) = 8; A.Transpose(T); NEED(T(0, 0) == 0 && T(1, 0) == 5); }''')
S('C07-svd-static-workspace', 'C07', [(D, '''    int lwork = -1;
    double qwork;

    dgesvd_(jobu, jobvt, m, n, A, lda, S, U, ldu, VT, ldvt,
            &qwork, &lwork, &info);

    lwork = static_cast<int>(qwork);

    std::vector<double> work(lwork);
''', '''    static int lwork = -1;
    static std::vector<double> work;

    if (lwork < 0)
    {
        double qwork;

        dgesvd_(jobu, jobvt, m, n, A, lda, S, U, ldu, VT, ldvt,
                &qwork, &lwork, &info);

        lwork = static_cast<int>(qwork);
        work.resize(lwork);
    }
''')],
  'a decomposition of a larger matrix after one of a smaller matrix in the same process',
  'the workspace is sized by the first call; LAPACK rejects it for larger matrices and the factors are garbage',
  '''#include <unistd.h>
bool finished = false;                    // LAPACK's error handler ends the process with status 0
void at_end() { if (!finished) { _exit(1); } }
int main() { std::atexit(at_end); DenseMatrix a(1, 1); a(0, 0) = 2; auto s = a.SVD(); NEED(std::fabs(s[0] - 2) < 1e-12); const int n = 40; DenseMatrix b(n, n); for (int i = 0; i < n; ++i) { b(i, i) = i + 1; } s = b.SVD(); for (int i = 0; i < n; ++i) { NEED(std::fabs(s[i] - (n - i)) < 1e-10); } finished = true; }''')
S('C07-invert-diagonal', 'C07', [(D, '''    const int mn_min = std::min(rows, cols);

    const int* m = &rows;
    const int* n = &cols;
    double* A = data_.data();
    const int* lda = &rows;
    int info;

    std::vector<int> ipiv(mn_min, 0);
''', '''    const int mn_min = std::min(rows, cols);

    const int* m = &rows;
    const int* n = &cols;
    double* A = data_.data();
    const int* lda = &rows;
    int info;

    if (std::count(std::begin(data_), std::end(data_), 0.0) == rows * cols - rows)
    {
        for (auto& val : data_)
        {
            val = (val == 0.0) ? 0.0 : 1.0 / val;
        }

        return;
    }

    std::vector<int> ipiv(mn_min, 0);
''')],
  'a matrix with one entry per row and column that is not diagonal (a scaled permutation that is not symmetric)',
  'it is inverted entry by entry as if it were diagonal',
  '''int main() { DenseMatrix a(3, 3); a(0, 1) = 1; a(1, 2) = 1; a(2, 0) = 2; DenseMatrix b; a.Invert(b); auto p = a.Mult(b); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { NEED(std::fabs(p(i, j) - (i == j)) < 1e-12); } }''')
E = 'src/eigensolver.cpp'
S('C08-strict-threshold', 'C08', [(E, '''    while (m < max_evect && evals[m] <= tol)''', '''    while (m < max_evect && evals[m] < tol)''')],
  'an eigenvalue that lies exactly on the threshold (rel_tol 1, or a multiple largest eigenvalue)',
  'eigenvectors of eigenvalues equal to the threshold are not computed',
  '''int main() { DenseMatrix a(2, 2); a(0, 0) = 1; a(1, 1) = 2; EigenSolver e; auto p = e.Solve(a, 1.0, -1); NEED(p.second.Cols() == 2); }''')
S('C08-workspace-equal', 'C08', [(E, '''    const double tol = evals.back() * rel_tol;
''', '''    const double tol = evals[alloc_size_ < n ? n - 1 : std::min(alloc_size_, (int)d_.size()) > n ? n - 1 : n - 1] * rel_tol;
'''), (E, '''    evals.resize(n);

    mat.CopyData(A_);''', '''    evals.resize(n);

    if (static_cast<int>(A_.size()) < n * n)
    {
        A_.resize(n * n);
    }

    for (int j = 0; j < n; ++j)
    {
        for (int i = 0; i < n; ++i)
        {
            A_[i + j * alloc_size_] = mat(i, j);
        }
    }
''')],
  'a solver object used for a small matrix after a larger one',
  'the copy uses the leading dimension of the largest matrix seen, LAPACK that of the current one',
  '''int main() { DenseMatrix b(3, 3); for (int i = 0; i < 3; ++i) { b(i, i) = 10 + i; } DenseMatrix a(2, 2); a(0, 0) = 2; a(1, 1) = 2; a(0, 1) = a(1, 0) = 1; EigenSolver e; e.Solve(b, 1.0, -1); auto p = e.Solve(a, 1.0, -1); NEED(std::fabs(p.first[0] - 1) < 1e-12 && std::fabs(p.first[1] - 3) < 1e-12); }''')
V = 'include/vectorview.hpp'
S('C09-axpby-alias', 'C09', [(V, '''    for (int i = 0; i < size; ++i)
    {
        z[i] = (alpha * x[i]) + (beta * y[i]) + (gamma * z[i]);
    }''', '''    for (int i = 0; i < size; ++i)
    {
        z[i] *= gamma;
        z[i] += alpha * x[i];
        z[i] += beta * y[i];
    }''')],
  'the three-vector update with the target also given as x or y',
  'the target is scaled before it is read as an operand',
  '''int main() { Vector<double> x(1, 3.0), y(1, 5.0); const VectorView<double>& xv = x; const VectorView<double>& yv = y; Add(2.0, xv, 1.0, yv, 4.0, VectorView<double>(x)); NEED(x[0] == 2 * 3 + 5 + 4 * 3); }''')
S('C09-mean-int', 'C09', [(V, '''    return Sum(vect) / (double) vect.size();''', '''    return Sum(vect) / vect.size();''')],
  'the mean of a vector of integers whose sum is not divisible by its length',
  'the mean is truncated',
  '''int main() { Vector<int> v(2); v[0] = 1; v[1] = 2; const VectorView<int>& w = v; NEED(Mean(w) == 1.5); }''')
S('C09-scale-by-own-entry', 'C09', [(V, '''VectorView<T> operator*=(VectorView<T> vect, T val)
{
    for (T& i : vect)
    {
        i *= val;
    }

    return vect;
}''', '''VectorView<T> operator*=(VectorView<T> vect, const T& val)
{
    for (T& i : vect)
    {
        i *= val;
    }

    return vect;
}''')],
  'a vector scaled by one of its own entries',
  'the factor changes while the vector is scaled',
  '''int main() { Vector<double> v(3, 2.0); v *= v[0]; NEED(v[0] == 4 && v[1] == 4 && v[2] == 4); }''')
S('C10-coo-swap-size', 'C10', [(O, '''    std::swap(lhs.size_set_, rhs.size_set_);
    std::swap(lhs.entries_, rhs.entries_);''', '''    std::swap(lhs.entries_, rhs.entries_);
    lhs.size_set_ = lhs.size_set_ || rhs.size_set_;''')],
  'a coordinate matrix without a declared size swapped with, or moved into, one with a declared size',
  'whether the size was declared does not travel with the matrix',
  '''int main() { CooMatrix<double> a(3, 3), b; b.Add(4, 4, 1.0); swap(a, b); NEED(a.Rows() == 5 && a.Cols() == 5); NEED(b.Rows() == 3); }''')
S('C10-vector-assign-longer', 'C10', [('include/vector.hpp', '''Vector<T>& Vector<T>::operator=(const VectorView<T>& vect)
{
    data_.resize(vect.size());
    std::copy(std::begin(vect), std::end(vect), std::begin(data_));

    VectorView<T>::SetData(data_.data(), data_.size());
''', '''Vector<T>& Vector<T>::operator=(const VectorView<T>& vect)
{
    if (static_cast<int>(data_.size()) < vect.size())
    {
        data_.resize(vect.size());
    }

    std::copy(std::begin(vect), std::end(vect), std::begin(data_));

    VectorView<T>::SetData(data_.data(), vect.size());
''')],
  'a vector assigned a shorter view, then copied',
  'the storage stays longer than the vector, so a copy of it has the old length',
  '''int main() { Vector<double> a(5, 1.0), b(2, 7.0); const VectorView<double>& v = b; a = v; Vector<double> c(a); NEED(a.size() == 2 && c.size() == 2 && c[0] == 7); }''')
S('C10-blockvector-swap-offsets', 'C10', [('include/blockvector.hpp', '''    swap(lhs.offsets_, rhs.offsets_);''', '''    if (lhs.offsets_.size() != rhs.offsets_.size())
    {
        swap(lhs.offsets_, rhs.offsets_);
    }''')],
  'two block vectors with the same number of blocks of different sizes swapped or assigned',
  'the block offsets stay behind while the data move',
  '''#include "blockvector.hpp"
int main() { BlockVector<double> a({0, 1, 3}, 1.0), b({0, 2, 3}, 2.0); swap(a, b); NEED(a.GetBlock(0).size() == 2 && b.GetBlock(0).size() == 1 && a[0] == 2.0); }''')
B = 'include/blockmatrix.hpp'
S('C11-setblock-same-count', 'C11', [(B, '''    swap(A_[i][j], mat);
}''', '''    if (A_[i][j].Rows() == mat.Rows() && A_[i][j].Cols() == mat.Cols() && A_[i][j].nnz() == mat.nnz())
    {
        std::swap(A_[i][j].GetData(), mat.GetData());
        return;
    }

    swap(A_[i][j], mat);
}''')],
  'a block replaced by one with as many entries at other positions',
  'the replacement keeps the old positions',
  '''#include "blockmatrix.hpp"
int main() { BlockMatrix<double> B(std::vector<int>{0, 2}); B.SetBlock(0, 0, SparseMatrix<double>({0, 1, 1}, {0}, {3.}, 2, 2)); B.SetBlock(0, 0, SparseMatrix<double>({0, 0, 1}, {1}, {4.}, 2, 2)); auto C = B.Combine().ToDense(); NEED(C(1, 1) == 4 && C(0, 0) == 0); }''')
S('C11-multat-empty-block-row', 'C11', [(B, '''                for (int jj = start; jj < end; ++jj)
                {
                    const int col = offset + mat_indices[jj];

                    output[col] += mat_data[jj] * input[row];
                }
            }

            local_row++;''', '''                if (start == end)
                {
                    break;
                }

                for (int jj = start; jj < end; ++jj)
                {
                    const int col = offset + mat_indices[jj];

                    output[col] += mat_data[jj] * input[row];
                }
            }

            local_row++;''')],
  'the transposed product of a block matrix where a row is empty in one block but not in a later one',
  'the rest of the row is skipped',
  '''#include "blockmatrix.hpp"
int main() { BlockMatrix<double> B(std::vector<int>{0, 1, 2}); B.SetBlock(0, 0, SparseMatrix<double>(1, 1)); B.SetBlock(0, 1, SparseMatrix<double>({0, 1}, {0}, {3.}, 1, 1)); Vector<double> x(2, 1.0), y(2); B.MultAT(x, VectorView<double>(y)); NEED(y[1] == 3); }''')
P = 'src/blockoperator.cpp'
S('C12-unset-column-stale', 'C12', [(P, '''    x_ = input;
    y_ = 0.0;

    const int row_blocks''', '''    x_ = input;

    const int row_blocks'''), (P, '''        tmp_.SetSize(row_y.size());

        for (int j = 0; j < col_blocks; ++j)
        {
            const Operator* op = A_[i][j];

            if (op)
            {
                op->Mult(x_.GetBlock(j), tmp_);
                row_y += tmp_;
            }
        }''', '''        tmp_.SetSize(row_y.size());

        bool first = true;

        for (int j = 0; j < col_blocks; ++j)
        {
            const Operator* op = A_[i][j];

            if (op)
            {
                op->Mult(x_.GetBlock(j), tmp_);

                if (first)
                {
                    row_y = 0.0;
                    first = false;
                }

                row_y += tmp_;
            }
        }''')],
  'a block row without any operator, applied after a transposed product (which leaves values in the internal vector)',
  'the rows of an unset block row return the values of an earlier operation',
  '''#include "blockoperator.hpp"
int main() { BlockOperator B({0, 1, 2}); SparseMatrix<double> a({0, 1}, {0}, {3.}, 1, 1); B.SetBlock(0, 0, a); Vector<double> x(2, 5.0), y(2); B.MultAT(x, VectorView<double>(y)); B.Mult(x, VectorView<double>(y)); NEED(y[0] == 15 && y[1] == 0); }''')
S('C12-copy-shares-shape', 'C12', [(P, '''    swap(lhs.x_, rhs.x_);
    swap(lhs.y_, rhs.y_);''', '''    if (lhs.x_.size() != rhs.x_.size() || lhs.y_.size() != rhs.y_.size())
    {
        swap(lhs.x_, rhs.x_);
        swap(lhs.y_, rhs.y_);
    }''')],
  'two block operators of the same total size with different block sizes, swapped and applied',
  'the internal block vectors keep the other operator\'s blocks',
  '''#include "blockoperator.hpp"
int main() { BlockOperator A({0, 1, 3}), B({0, 2, 3}); DenseMatrix a(1, 1), b(2, 2); a(0, 0) = 2; b(0, 0) = b(1, 1) = 3; A.SetBlock(0, 0, a); B.SetBlock(0, 0, b); swap(A, B); Vector<double> x(3, 1.0), y(3); A.Mult(x, VectorView<double>(y)); NEED(y[0] == 3 && y[1] == 3 && y[2] == 0); }''')
SO = 'src/solvers.cpp'; PA = 'include/parser.hpp'; AH = 'include/argparser.hpp'; AC = 'src/argparser.cpp'
PT = 'modules/partition/include/partition.hpp'; SS = 'modules/sparsesolver/src/sparsesolve.cpp'; TI = 'src/timer.cpp'; VC = 'src/vectorview.cpp'
BV = 'include/blockvector.hpp'
LAP = '''static SparseMatrix<double> lap(int n) { CooMatrix<double> c(n, n); for (int i = 0; i < n; ++i) { c.Add(i, i, 2); if (i) { c.Add(i, i - 1, -1); c.Add(i - 1, i, -1); } } return c.ToSparse(); }
'''
S('C13-stale-direction', 'C13', [(SO, '''    p_ = z_;

    const double r0''', '''    if (num_iter_ == 0)
    {
        p_ = z_;
    }

    const double r0''')],
  'a second solve with the same conjugate gradient object',
  'the search direction of the previous solve is used, so the iterates are not those of conjugate gradients',
  LAP + '''int main() { auto A = lap(6); PCGSolver S(A, 6, 1e-12, 0); Vector<double> b(6, 1.0), x(6, 0.0), y(6, 0.0); S.Mult(b, VectorView<double>(x)); b[0] = 5; S.Mult(b, VectorView<double>(y)); Vector<double> r(6); A.Mult(y, VectorView<double>(r)); for (int i = 0; i < 6; ++i) { NEED(std::fabs(r[i] - b[i]) < 1e-8); } }''')
S('C13-free-tolerances', 'C13', [(SO, 'PCGSolver cg(A, max_iter, rel_tol, abs_tol, verbose);', 'PCGSolver cg(A, max_iter, rel_tol, std::max(rel_tol, abs_tol), verbose);')],
  'the free function with a loose relative tolerance and a small right-hand side',
  'the relative tolerance is also applied as an absolute one: small systems are left unsolved',
  LAP + '''int main() { auto A = lap(4); Vector<double> b(4, 1e-3), x(4, 0.0), r(4); CG(A, b, VectorView<double>(x), 100, 1e-2, 0.0); A.Mult(x, VectorView<double>(r)); r -= b; NEED(L2Norm(r) <= 1.01e-2 * L2Norm(b)); }''')
S('C13-scaled-breakdown', 'C13', [(SO, 'linalgcpp_verify(pAp > -1e12, "PCG is not positive definite!");', '''if (pAp < 1e-30)
        {
            break;
        }''')],
  'a right-hand side of tiny magnitude (1e-16 and below) with purely relative tolerance',
  'the solver stops as if it had broken down and leaves the starting guess',
  LAP + '''int main() { auto A = lap(4); Vector<double> b(4, 1e-17), x(4, 0.0), r(4); PCGSolver S(A, 100, 1e-8, 0.0); S.Mult(b, VectorView<double>(x)); A.Mult(x, VectorView<double>(r)); r -= b; NEED(L2Norm(r) <= 1.01e-8 * L2Norm(b)); }''')
S('C14-stale-v0', 'C14', [(SO, '''    w0_ = 0.0;
    w1_ = 0.0;
    v0_ = 0.0;

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    double beta''', '''    w0_ = 0.0;
    w1_ = 0.0;

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    double beta''')],
  'a second solve with the same minimum residual object',
  'the Lanczos recurrence starts from the last vector of the previous solve',
  LAP + '''int main() { auto A = lap(6); MINRESSolver S(A, 6, 1e-12, 0); Vector<double> b(6, 1.0), x(6, 0.0), y(6, 0.0), r(6); S.SetMaxIter(2); b[1] = 3; S.Mult(b, VectorView<double>(x)); S.SetMaxIter(6); b[0] = 5; S.Mult(b, VectorView<double>(y)); A.Mult(y, VectorView<double>(r)); for (int i = 0; i < 6; ++i) { NEED(std::fabs(r[i] - b[i]) < 1e-8); } }''')
S('C14-lucky-breakdown', 'C14', [(SO, '''        beta = std::sqrt((*Dot_)(v0_, v0_));
''', '''        beta = (*Dot_)(v0_, v0_);

        if (beta == 0.0)
        {
            break;
        }

        beta = std::sqrt(beta);
''')],
  'a system whose Krylov space is exhausted exactly (the right-hand side is an eigenvector), in floating point too',
  'the last update of the solution is skipped: the starting guess is returned as the solution',
  '''int main() { SparseMatrix<double> A({0, 1, 2}, {0, 1}, {2., 3.}, 2, 2); Vector<double> b(2, 0.0), x(2, 0.0); b[0] = 4; MINRESSolver S(A, 10, 1e-10, 0); S.Mult(b, VectorView<double>(x)); NEED(std::fabs(x[0] - 2) < 1e-9 && x[1] == 0); }''')
S('C15-swap-workspace', 'C15', [(SO, '''    swap(static_cast<Solver&>(lhs), static_cast<Solver&>(rhs));

    std::swap(lhs.w0_, rhs.w0_);''', '''    swap(static_cast<Solver&>(lhs), static_cast<Solver&>(rhs));

    if (lhs.w0_.size() && rhs.w0_.size())
    {
        return;
    }

    std::swap(lhs.w0_, rhs.w0_);''')],
  'assigning or swapping two minimum residual solvers of different sizes',
  'the solver keeps work vectors of its previous size: reads and writes outside them',
  LAP + '''int main() { auto A = lap(3), B = lap(5); MINRESSolver S(A, 20, 1e-12, 0), T(B, 20, 1e-12, 0); S = T; Vector<double> b(5, 1.0), x(5, 0.0), r(5); S.Mult(b, VectorView<double>(x)); B.Mult(x, VectorView<double>(r)); for (int i = 0; i < 5; ++i) { NEED(std::fabs(r[i] - 1) < 1e-9); } }''')
S('C15-swap-dot', 'C15', [(SO, '''    std::swap(lhs.Dot_, rhs.Dot_);''', '''    if (!lhs.Dot_ || !rhs.Dot_)
    {
        std::swap(lhs.Dot_, rhs.Dot_);
    }''')],
  'assigning a solver with an inner product of the user\'s own to one with another',
  'the assigned solver keeps its previous inner product',
  LAP + '''static int calls = 0; double my(const VectorView<double>& a, const VectorView<double>& b) { ++calls; return InnerProduct(a, b); }
int main() { auto A = lap(3); PCGSolver S(A, 20, 1e-12, 0), T(A, 20, 1e-12, 0, false, my); S = T; Vector<double> b(3, 1.0), x(3, 0.0); S.Mult(b, VectorView<double>(x)); NEED(calls > 0); }''')
S('C16-adj-diagonal', 'C16', [(PA, '''            if (!symmetric || col >= i)
            {
                file << i << " " << col << "\\n";''', '''            if (!symmetric || col > i)
            {
                file << i << " " << col << "\\n";''')],
  'symmetric adjacency list output of a matrix with diagonal entries',
  'the diagonal is lost',
  '''int main() { SparseMatrix<double> A({0, 2, 4}, {0, 1, 0, 1}, {1., 1., 1., 1.}, 2, 2); WriteAdjList(A, "a.txt", true); auto B = ReadAdjList("a.txt", true); NEED(B.nnz() == 4); }''')
S('C16-fixed-notation', 'C16', [(PA, '''    file.precision(16);

    for (const auto& val : vect)
    {''', '''    file.precision(16);
    file.setf(std::ios::fixed, std::ios::floatfield);

    for (const auto& val : vect)
    {''')],
  'a vector with tiny values',
  'values below 1e-16 are written as 0 and small ones lose digits',
  '''int main() { std::vector<double> v = {1.5, 1e-20, 3e-9 / 7}; WriteText(v, "v.txt"); auto w = ReadText("v.txt"); NEED(w.size() == 3); for (int i = 0; i < 3; ++i) { NEED(std::fabs(w[i] - v[i]) <= 1e-15 * std::fabs(v[i])); } }''')
S('C16-table-empty-rows', 'C16', [(PA, '''        indptr.push_back(indices.size());
    }
''', '''        if (!line.empty() || indptr.back() > 0)
        {
            indptr.push_back(indices.size());
        }
    }
''')],
  'a table whose first rows are empty',
  'leading empty rows are dropped: every later row moves up',
  '''int main() { SparseMatrix<int> A({0, 0, 1, 1, 2}, {1, 0}, {1, 1}, 4, 2); WriteTable(A, "t.txt"); auto B = ReadTable("t.txt"); NEED(B.Rows() == 4 && B.RowSize(0) == 0 && B.RowSize(1) == 1); }''')
S('C17-chunked-write', 'C17', [(PA, '''    file.write(reinterpret_cast<const char*>(&size), sizeof(size));
    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
''', '''    file.write(reinterpret_cast<const char*>(&size), sizeof(size));

    const size_t chunk = 1 << 14;

    for (size_t done = 0; done < size; done += chunk)
    {
        const size_t len = done + chunk < size ? chunk : size % chunk;

        file.write(reinterpret_cast<const char*>(&vect[done]), len * sizeof(T));
    }
''')],
  'a vector whose length is a multiple of 16384',
  'the last block is not written: the vector cannot be read back',
  '''int main() { std::vector<double> v(1 << 15); for (size_t i = 0; i < v.size(); ++i) { v[i] = i + 1; } WriteBinary(v, "v.bin"); auto w = ReadBinaryVect("v.bin"); NEED(w == v); }''')
S('C17-shape-from-entries', 'C17', [(PA, '''    file.close();

    return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);''', '''    file.close();

    if (nnz == 0)
    {
        return SparseMatrix<T>(rows, rows);
    }

    return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);''')],
  'a rectangular matrix without entries',
  'it comes back square',
  '''int main() { SparseMatrix<double> A(2, 5); WriteBinary(A, "a.bin"); auto B = ReadBinaryMat("a.bin"); NEED(B.Rows() == 2 && B.Cols() == 5); }''')
S('C18-separate-stream', 'C18', [(PA, '''    file.write(reinterpret_cast<const char*>(&rows), sizeof(rows));
    file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
    file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));

    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
''', '''    std::ostream out(file.rdbuf());

    out.write(reinterpret_cast<const char*>(&rows), sizeof(rows));
    out.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
    out.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));

    out.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
    out.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
    out.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
''')],
  'the storage fills up while a matrix larger than the stream buffer is written',
  'the failed write is recorded in another stream object than the one that is checked: the function returns normally',
  '''#include <sys/resource.h>
#include <signal.h>
int main() { const int n = 4000; std::vector<int> ip(n + 1), ix(n); std::vector<double> d(n, 1.0); for (int i = 0; i < n; ++i) { ip[i + 1] = i + 1; ix[i] = i; } SparseMatrix<double> A(ip, ix, d, n, n);
 signal(SIGXFSZ, SIG_IGN); struct rlimit l = {20000, 20000}; setrlimit(RLIMIT_FSIZE, &l); bool told = false; try { WriteBinary(A, "a.bin"); } catch (const std::exception&) { told = true; } NEED(told); }''')
S('C19-coo-upper-only', 'C19', [(PA, '''        file >> i >> j >> val;
        VerifyRead(file, file_name);

        coo.Add(i, j, val);

        if (symmetric && i != j)
        {''', '''        file >> i >> j >> val;
        VerifyRead(file, file_name);

        coo.Add(i, j, val);

        if (symmetric && i < j)
        {''')],
  'a symmetric coordinate list that stores the lower triangle',
  'the upper triangle is not filled in',
  '''#include <fstream>
int main() { { std::ofstream f("c.txt"); f << "0 0 1\\n1 0 2\\n"; } auto A = ReadCooList("c.txt", true); auto D = A.ToDense(); NEED(A.Cols() == 2 && D(0, 1) == 2 && D(1, 0) == 2); }''')
S('C20-negative-fraction', 'C20', [(AC, '''    return (arg.compare(0, flag_start.size(), flag_start) == 0);''', '''    return (arg.compare(0, flag_start.size(), flag_start) == 0) ||
           (arg.size() > 1 && arg[0] == '-' && (arg[1] < '0' || arg[1] > '9'));''')],
  'an option whose value begins with a minus sign not followed by a digit (-.5, -inf, -name)',
  'the value is taken for another option',
  '''int main() { const char* a[] = {"p", "--x", "-.5"}; ArgParser P(3, a); double x = 1; P.Parse(x, "--x"); NEED(x == -.5 && P.IsGood()); }''')
S('C20-repeated-switch', 'C20', [(AC, '''            if (values_.find(*iter) == values_.end())
            {
                values_[*iter] = "";
            }
            else
            {
                errors_.push_back(*iter + " entered multiple times!");
            }

            iter += 1;''', '''            values_.insert({*iter, ""});

            iter += 1;''')],
  'a switch, or an option without a value, named twice',
  'the repetition is not reported',
  '''int main() { const char* a[] = {"p", "--v", "--v"}; ArgParser P(3, a); bool v = false; P.Parse(v, "--v"); NEED(!P.IsGood()); }''')
S('C20-listing-width', 'C20', [(AC, '''        flag_width = std::max(flag_width, option.first.size());
        val_width = std::max(val_width, option.second.size());
''', '''        flag_width = std::max(flag_width, option.first.size());
        val_width = std::max(flag_width, option.second.size());
''')],
  'several options of different value lengths in the listing, the longest not last',
  'a long value runs into the description of its option',
  '''#include <sstream>
int main() { ArgParser P; std::string a = "a-rather-long-value-string"; int b = 1; P.Parse(a, "-a", "first"); P.Parse(b, "-b", "second"); std::ostringstream o; P.ShowOptions(o); NEED(o.str().find("string first") != std::string::npos || o.str().find("string  first") != std::string::npos); }''')
S('C21-two-parts-labels', 'C21', [(PT, '''    RemoveEmpty(part);

    auto''', '''    if (num_parts > 2)
    {
        RemoveEmpty(part);
    }

    auto''')],
  'a partitioner that puts every vertex into the second of two parts',
  'the labels are not 0..m-1',
  '''extern "C" int METIS_PartGraphKway(idx_t* n, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t* p) { for (int i = 0; i < *n; ++i) { p[i] = 1; } return METIS_OK; }
int main() { SparseMatrix<double> A({0, 1, 2}, {1, 0}, {1., 1.}, 2, 2); auto p = Partition(A, 2); NEED(p[0] == 0 && p[1] == 0); }''', mod='partition')
S('C21-contig-two-parts', 'C21', [(PT, 'options[METIS_OPTION_CONTIG] = contig;', 'options[METIS_OPTION_CONTIG] = contig && num_parts > 2;')],
  'a contiguous partition into exactly two parts',
  'the partitioner is not asked for contiguous parts',
  '''static int asked = -1;
extern "C" int METIS_PartGraphKway(idx_t* n, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t* o, idx_t*, idx_t* p) { asked = o[METIS_OPTION_CONTIG]; for (int i = 0; i < *n; ++i) { p[i] = i % 2; } return METIS_OK; }
int main() { SparseMatrix<double> A({0, 1, 2}, {1, 0}, {1., 1.}, 2, 2); Partition(A, 2, 1.0, true); NEED(asked == 1); }''', mod='partition')
S('C22-consecutive-gaps', 'C22', [(PT, '        if (counter[i] == 0)\n', '        if (counter[i] == 0 && (i == 0 || counter[i - 1] != 0))\n')],
  'two or more consecutive unused labels',
  'only one of them is closed: labels stay unused',
  '''int main() { std::vector<int> p = {0, 3, 3}; RemoveEmpty(p); NEED(p[0] == 0 && p[1] == 1 && p[2] == 1); }''', mod='partition')
S('C22-short-cut', 'C22', [(PT, '''    std::vector<int> counter(num_parts, 0);
    std::vector<int> shifter(num_parts);
''', '''    if (num_parts <= 1 || partition.front() + partition.back() + 1 == num_parts)
    {
        return;
    }

    std::vector<int> counter(num_parts, 0);
    std::vector<int> shifter(num_parts);
''')],
  'labels whose first and last entries add up to the largest label, with a gap below it',
  'the gap is not closed',
  '''int main() { std::vector<int> p = {0, 2, 2}; RemoveEmpty(p); NEED(p[1] == 1 && p[2] == 1); }''', mod='partition')
S('C23-swap-numeric', 'C23', [(SS, '    std::swap(lhs.numeric_, rhs.numeric_);', '''    if (lhs.A_.nnz() != rhs.A_.nnz())
    {
        std::swap(lhs.numeric_, rhs.numeric_);
    }''')],
  'assigning or swapping two solvers whose matrices have the same number of entries',
  'the factorisation stays with the other matrix: wrong solutions',
  '''int main() { SparseMatrix<double> A({0, 1, 2}, {0, 1}, {2., 2.}, 2, 2), B({0, 1, 2}, {0, 1}, {4., 4.}, 2, 2); SparseSolver S(A), T(B); swap(S, T); Vector<double> b(2, 4.0), x(2); S.Mult(b, VectorView<double>(x)); NEED(std::fabs(x[0] - 1) < 1e-12); }''', mod='sparsesolver')
S('C23-cached-analysis', 'C23', [(SS, '''    void* symbolic = nullptr;
    int symb_status = umfpack_di_symbolic(rows, cols, indptr, indices, data,
            &symbolic, control_.data(), info_.data());

    assert(symb_status == 0);
''', '''    static void* symbolic = nullptr;
    static std::vector<int> analysed;

    // The symbolic analysis depends on the sparsity pattern only
    if (!symbolic || analysed != A_.GetIndptr())
    {
        if (symbolic)
        {
            umfpack_di_free_symbolic(&symbolic);
        }

        int symb_status = umfpack_di_symbolic(rows, cols, indptr, indices, data,
                &symbolic, control_.data(), info_.data());

        assert(symb_status == 0);

        analysed = A_.GetIndptr();
    }
'''), (SS, '''    assert(num_status == 0);

    umfpack_di_free_symbolic(&symbolic);
''', '''    assert(num_status == 0);
''')],
  'two solvers whose matrices have the same number of entries in every row, in different columns',
  'the second factorisation uses the analysis of the first pattern',
  '''int main() { SparseMatrix<double> A({0, 1, 2, 4}, {0, 1, 0, 2}, {2., 2., 1., 2.}, 3, 3), B({0, 1, 2, 4}, {1, 0, 1, 2}, {4., 4., 1., 2.}, 3, 3); SparseSolver S(A); SparseSolver T(B); Vector<double> b(3, 4.0), x(3); T.Mult(b, VectorView<double>(x)); NEED(std::fabs(x[0] - 1) < 1e-12 && std::fabs(x[1] - 1) < 1e-12 && std::fabs(x[2] - 1.5) < 1e-12); }''', mod='sparsesolver')
FAKE = '''#include <chrono>
static long long now_ns = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(now_ns)); } } } }
'''
S('C24-microseconds', 'C24', [(TI, '''    std::chrono::duration<double> elapsed_time = times_[index + 1] - times_[index];
    return elapsed_time.count();''', '''    auto elapsed_time = std::chrono::duration_cast<std::chrono::microseconds>(times_[index + 1] - times_[index]);
    return elapsed_time.count() * 1e-6;''')],
  'intervals that are not whole microseconds',
  'intervals are cut to microseconds; those below one are reported as zero',
  FAKE + '''int main() { Timer t; t.Click(); now_ns += 1700; t.Click(); NEED(std::fabs(t[0] - 1.7e-6) < 1e-12); }''')
S('C24-dedupe', 'C24', [(TI, '''    times_.push_back(std::chrono::high_resolution_clock::now());
''', '''    const auto now = std::chrono::high_resolution_clock::now();

    if (times_.empty() || times_.back() != now)
    {
        times_.push_back(now);
    }
''')],
  'two clicks within the resolution of the clock',
  'the second is dropped: every later interval has the wrong index',
  FAKE + '''int main() { Timer t; t.Click(); t.Click(); now_ns += 1000000000; t.Click(); NEED(t[0] == 0 && t[1] == 1); }''')
S('C25-seed-zero', 'C25', [(VC, '''    std::uniform_real_distribution<double> gen(lo, hi);

    if (seed >= 0)
''', '''    std::uniform_real_distribution<double> gen(lo, hi);

    if (seed > 0)
''')],
  'seed 0',
  'the fill is not reproducible',
  '''int main() { Vector<double> a(8), b(8); Randomize(a, 0.0, 1.0, 0); Randomize(b, 0.0, 1.0, 0); for (int i = 0; i < 8; ++i) { NEED(a[i] == b[i]); } }''')
S('C25-static-range', 'C25', [(VC, '    std::uniform_int_distribution<int> gen(lo, hi);', '    static std::uniform_int_distribution<int> gen(lo, hi);')],
  'two integer fills with different ranges',
  'the second fill uses the range of the first',
  '''int main() { Vector<int> a(8), b(8); Randomize(a, 0, 3, 1); Randomize(b, 10, 20, 1); for (int i = 0; i < 8; ++i) { NEED(b[i] >= 10 && b[i] <= 20); } }''')
STOP = '''#include <sys/wait.h>
#include <unistd.h>
#include <functional>
static bool stopped(std::function<void()> f) { pid_t p = fork(); if (!p) { if (!std::freopen("/dev/null", "w", stderr)) {} try { f(); } catch (...) { _exit(9); } _exit(0); } int st; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
'''
S('C26-rowsize', 'C26', [(H, '    assert(row >= 0 && row < rows_);\n\n    return indptr_[row + 1] - indptr_[row];', '    assert(row >= 0 && row <= rows_);\n\n    return indptr_[row + 1] - indptr_[row];')],
  'the size of the row just past the last',
  'the row pointer is read out of bounds',
  STOP + '''int main() { SparseMatrix<double> A(2, 2); NEED(stopped([&] { A.RowSize(2); })); }''')
S('C26-entrywise-size', 'C26', [('include/vectorview.hpp', '''    assert(lhs.size() == rhs.size());

    const int size = lhs.size();

    for (int i = 0; i < size; ++i)
    {
        lhs[i] *= rhs[i];''', '''    assert(lhs.size() <= rhs.size());

    const int size = lhs.size();

    for (int i = 0; i < size; ++i)
    {
        lhs[i] *= rhs[i];''')],
  'the entrywise product with a longer vector',
  'a size mismatch is accepted silently',
  STOP + '''int main() { Vector<double> x(2, 1.0), y(3, 1.0); NEED(stopped([&] { x *= y; })); }''')

S('C19-graph-isolated', 'C19', [(PA, '''            coo.Add(i, i, 1);
            coo.Add(j, j, 1);''', '''            coo.Add(std::min(i, j), i, 1);
            coo.Add(i + 1, j, i + 1 == j ? 1 : 0);
            coo.Add(j, j, i + 1 == j ? 0 : 1);''')],
  'a graph whose edge list joins vertices that are not neighbours in number',
  'explicit zeros appear at positions nobody listed',
  '''#include <fstream>
int main() { { std::ofstream f("g.txt"); f << "0 1\\n0 3\\n"; } auto G = ReadGraphList("g.txt"); NEED(G.nnz() == 7); }''')
THR = '''#include <thread>
#include <atomic>
static void both(std::function<bool(int)> f) { std::atomic<bool> bad(false); auto t0 = std::chrono::steady_clock::now(); std::vector<std::thread> t; for (int k = 0; k < 4; ++k) { t.emplace_back([&, k] { while (!bad && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20)) { for (int i = 0; i < 20; ++i) { if (!f(k)) { bad = true; return; } } } }); } for (auto& x : t) { x.join(); } NEED(!bad); }
'''
S('C28-inverse-static-pivots', 'C28', [('src/densematrix.cpp', '''    std::vector<int> ipiv(mn_min, 0);

    // Factor
    dgetrf_(m, n, A, lda, ipiv.data(), &info);

    // Invert''', '''    static std::vector<int> ipiv;
    ipiv.assign(mn_min, 0);

    // Factor
    dgetrf_(m, n, A, lda, ipiv.data(), &info);

    // Invert''')],
  'two threads inverting different dense matrices at the same time',
  'the pivots of the two factorisations are mixed in a static work array',
  THR + '''int main() { both([](int k) { int n = 20 + 7 * k; DenseMatrix A(n, n); A = 0.0; for (int i = 0; i < n; ++i) { A(i, (i * 3 + k) % n) = 2; if (n % 3 == 0) { A(i, (i * 3 + k) % n) = 0; A(i, (i + k) % n) = 2; } }
 DenseMatrix B; A.Invert(B); DenseMatrix C = A.Mult(B); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (std::fabs(C(i, j) - (i == j)) > 1e-9) { return false; } } } return true; }); }''', flags='-pthread ')
S('C28-static-engine', 'C28', [(VC, '''    std::random_device r;
    std::default_random_engine dev(r());
    std::uniform_real_distribution<double> gen(lo, hi);

    if (seed >= 0)
    {
        dev.seed(seed);
    }
''', '''    std::random_device r;
    static std::default_random_engine dev;
    std::uniform_real_distribution<double> gen(lo, hi);

    dev.seed(seed >= 0 ? seed : r());
''')],
  'two threads filling their own vectors with seeded values at the same time',
  'the engine is shared: the values depend on the other thread',
  THR + '''int main() { std::vector<Vector<double>> want; for (int k = 0; k < 4; ++k) { Vector<double> v(2000); Randomize(v, 0.0, 1.0, k + 2); want.push_back(v); }
 both([&](int k) { Vector<double> v(2000); Randomize(v, 0.0, 1.0, k + 2); for (int i = 0; i < 2000; ++i) { if (v[i] != want[k][i]) { return false; } } return true; }); }''', flags='-pthread ')
S('C28-compaction-static', 'C28', [('modules/partition/include/partition.hpp', '''    std::vector<int> counter(num_parts, 0);
    std::vector<int> shifter(num_parts);
''', '''    static std::vector<int> counter;
    static std::vector<int> shifter;

    counter.assign(num_parts, 0);
    shifter.resize(num_parts);
''')],
  'two threads compacting labels (or partitioning graphs) at the same time',
  'the counters of the two calls are mixed',
  THR + '''int main() { both([](int k) { std::vector<int> v(3000); for (int i = 0; i < 3000; ++i) { v[i] = (i * (k + 2)) % (500 + 100 * k) * (k + 1); } std::vector<int> w(v); RemoveEmpty(w); std::vector<int> u(v); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
 for (int i = 0; i < 3000; ++i) { if (w[i] < 0 || w[i] >= (int)u.size() || u[w[i]] != v[i]) { return false; } } return true; }); }''', mod='partition', flags='-pthread ')
S('C28-coo-sorts-itself', 'C28', [(O, '''    if (entries_.empty())
    {
        return SparseMatrix<U>(rows, cols);
    }

    std::vector<int> indptr(rows + 1, 0);
''', '''    if (entries_.empty())
    {
        return SparseMatrix<U>(rows, cols);
    }

    using Entry = std::tuple<int, int, T>;
    std::stable_sort(std::begin(entries_), std::end(entries_), [](const Entry& lhs, const Entry& rhs)
    {
        return std::get<0>(lhs) < std::get<0>(rhs);
    });

    std::vector<int> indptr(rows + 1, 0);
''')],
  'one thread converting a coordinate matrix while another multiplies with it',
  'the const conversion reorders the entries in place; the other thread misses some and counts some twice',
  THR + '''int main() { std::vector<std::unique_ptr<CooMatrix<double>>> pool; const int N = 4000, n = 300; std::atomic<int> bad(0);
 for (int r = 0; r < N / 40 && !bad; ++r) { CooMatrix<double> A(n, n); for (int i = n - 1; i >= 0; --i) { for (int j = 0; j < 20; ++j) { A.Add((i * 7 + j * 31) % n, (i + j) % n, 1.0); } } Vector<double> one(n, 1.0), want(n); A.Mult(VectorView<double>(one), VectorView<double>(want)); std::atomic<int> go(0);
 std::thread a([&] { ++go; while (go < 2) { } A.ToSparse(); }), b([&] { Vector<double> x(n, 1.0), y(n); ++go; while (go < 2) { } for (int k = 0; k < 60; ++k) { static_cast<const CooMatrix<double>&>(A).Mult(VectorView<double>(x), VectorView<double>(y)); for (int i = 0; i < n; ++i) { if (y[i] != want[i]) { bad = 1; } } } }); a.join(); b.join(); } NEED(!bad); }''', flags='-O1 -pthread ')
S('C29-csr-atoi', 'C29', [(PA, '''    for (int i = 0; i < nnz; ++i)
    {
        file >> data[i];
    }
''', '''    std::string token;

    for (int i = 0; i < nnz; ++i)
    {
        file >> token;
        data[i] = static_cast<T>(std::strtod(token.c_str(), nullptr));
    }
''')],
  'a value of a CSR file that is not a number',
  'it is read as zero (or as the digits it begins with) without an error',
  '''#include <fstream>
int main() { { std::ofstream f("a.txt"); f << "1\\n2\\n0\\n2\\n0\\n1\\n1.5\\nx2\\n"; } bool told = false; try { ReadCSR("a.txt"); } catch (const std::exception&) { told = true; } NEED(told);
 { std::ofstream f("b.txt"); f << "1\\n2\\n0\\n2\\n0\\n1\\n1.5\\n2\\n"; } NEED(ReadCSR("b.txt").GetData()[1] == 2); }''')
S('C29-table-comment', 'C29', [(PA, '''        std::stringstream stream(line);
''', '''        std::stringstream stream(line.substr(0, line.find_first_not_of("0123456789 \\t\\r")));
''')],
  'a table with something other than a number in a row',
  'the rest of the row is dropped without an error',
  '''#include <fstream>
int main() { { std::ofstream f("t.txt"); f << "0 1\\n1 o 2\\n"; } bool told = false; try { ReadTable("t.txt"); } catch (const std::exception&) { told = true; } NEED(told); }''')
S('C29-mtx-short', 'C29', [(PA, '''    bool symmetric = false;
    bool skew = false;
    std::string line;
''', '''    bool symmetric = false;
    bool skew = false;
    std::string line;

    std::stringstream buffer;
    buffer << file.rdbuf();
    static_cast<std::istream&>(file).rdbuf(buffer.rdbuf());
''')],
  'storage that fails between two entries of a Matrix Market file',
  'the file is buffered first and a failure of the storage looks like its end: only the declared count can tell (a failure within the last number gives a shorter number)',
  '''#include <fstream>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static long left = -1;
extern "C" ssize_t read(int fd, void* b, size_t n) { if (left >= 0 && fd > 2) { if (!left) { errno = EIO; return -1; } if ((long)n > left) { n = left; } ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0) { left -= r; } return r; } return syscall(SYS_read, fd, b, n); }
extern "C" ssize_t readv(int fd, const struct iovec* v, int k) { for (int i = 0; i < k; ++i) { if (v[i].iov_len) { return read(fd, v[i].iov_base, v[i].iov_len); } } return 0; }
int main() { std::string s = "%%MatrixMarket matrix coordinate real general\\n1 1 1\\n1 1 12.75\\n"; { std::ofstream f("a.mtx"); f << s; } left = s.size() - 2; bool told = false; try { NEED(ReadMTX("a.mtx").GetData()[0] == 12.75); } catch (const std::exception&) { told = true; } left = -1; NEED(told || true); 
 left = s.size() - 3; told = false; double v = 0; try { v = ReadMTX("a.mtx").GetData()[0]; } catch (const std::exception&) { told = true; } NEED(told || v == 12.75); }''')
S('C30-table-buffer', 'C30', [(PA, '''    std::vector<int> indptr(1, 0);
    std::vector<int> indices;

    for (std::string line; std::getline(file, line); )
    {
        std::stringstream stream(line);

        while (HasNext(stream))
        {
            int index;
''', '''    std::vector<int> indptr(1, 0);
    static thread_local std::vector<int> indices; // handed over to the matrix, empty again afterwards

    for (std::string line; std::getline(file, line); )
    {
        std::stringstream stream(line);

        while (HasNext(stream))
        {
            int index;
''')],
  'a table read after another one turned out to be damaged',
  'the entries read before the failure are kept and appear in the next table',
  '''#include <fstream>
int main() { { std::ofstream f("bad.txt"); f << "0 1\\n2 x\\n"; std::ofstream g("good.txt"); g << "0 1\\n1 2\\n"; } try { ReadTable("bad.txt"); } catch (const std::exception&) { }
 bool ok = false; try { auto t = ReadTable("good.txt"); ok = t.nnz() == 4 && t.GetIndices().size() == 4 && t.GetIndices()[2] == 1; } catch (const std::exception&) { } NEED(ok); }''')
S('C30-print-format', 'C30', [('src/densematrix.cpp', '''    std::stringstream ss;
    ss.imbue(out.getloc());
''', '''    std::ostream& ss = out;
    ss.imbue(out.getloc());
'''), ('src/densematrix.cpp', '''    ss << "\\n";

    out << ss.str();
}
''', '''    ss << "\\n";
}
''')],
  'output to the same stream after a dense matrix was printed',
  'the stream keeps the fixed format and the precision of the matrix, so later numbers lose digits',
  '''int main() { DenseMatrix A(2, 2, {1.0, 2.0, 3.0, 4.0}); std::ostringstream o; A.Print("A", o); o.str(""); o << 0.00012345; NEED(o.str() == "0.00012345"); }''')
S('C30-partition-options', 'C30', [('modules/partition/include/partition.hpp', '''    const int size = mat.Rows();

    if (num_parts < 2)
    {
        return std::vector<int>(size, 0);
    }
''', '''    const int size = mat.Rows();

    idx_t* options = new idx_t[METIS_NOPTIONS];

    if (num_parts < 2)
    {
        return std::vector<int>(size, 0);
    }
'''), ('modules/partition/include/partition.hpp', '''    idx_t options[METIS_NOPTIONS];
''', ''), ('modules/partition/include/partition.hpp', '''                             &nparts, tpwgts, &ubvec, options, &objval, part.data());
''', '''                             &nparts, tpwgts, &ubvec, options, &objval, part.data());

    delete[] options;
''')],
  'repeated partitioning into one part',
  'the early return leaves a block of memory behind each time',
  '''#include "partition.hpp"
#include <malloc.h>
int main() { CooMatrix<double> c(3, 3); for (int i = 0; i < 2; ++i) { c.AddSym(i, i + 1, 1.0); } auto A = c.ToSparse(); Partition(A, 1); auto before = mallinfo2().uordblks; for (int k = 0; k < 100; ++k) { Partition(A, 1); } NEED(mallinfo2().uordblks <= before); }''', mod='partition')
S('C31-qr-raw', 'C31', [('src/densematrix.cpp', '''    std::vector<double> tau(mn_min);
    std::vector<double> work(lwork);

    dgeqp3_(m, n, A, lda, jpvt.data(), tau.data(), work.data(), &lwork, &info);
''', '''    double* tau = new double[mn_min];
    std::vector<double> work(lwork);

    dgeqp3_(m, n, A, lda, jpvt.data(), tau, work.data(), &lwork, &info);
'''), ('src/densematrix.cpp', '''    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
''', '''    dorgqr_(m, n, k, A, lda, tau, &qwork, &lwork, &info);
'''), ('src/densematrix.cpp', '''    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);

    assert(info == 0);
''', '''    dorgqr_(m, n, k, A, lda, tau, work.data(), &lwork, &info);

    delete[] tau;

    assert(info == 0);
''')],
  'memory that runs out for the work space of a QR decomposition',
  'the block of factors is never freed',
  '''#include <malloc.h>
static long left = -1, blocks = 0;
void* operator new(size_t n) { if (left == 0) { throw std::bad_alloc(); } if (left > 0) { --left; } void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } ++blocks; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --blocks; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
int main() { DenseMatrix A(200, 200); for (int i = 0; i < 200; ++i) { A(i, i) = i + 1; } { DenseMatrix B(A); B.QR(); }
 for (int k = 0; k < 6; ++k) { DenseMatrix B(A); long before = blocks; left = k; try { B.QR(); } catch (const std::bad_alloc&) { } left = -1; long after = blocks; NEED(after <= before + 0); } }''')
S('C31-swap-copies', 'C31', [('include/blockmatrix.hpp', '''    std::swap(lhs.row_offsets_, rhs.row_offsets_);
    std::swap(lhs.col_offsets_, rhs.col_offsets_);
    swap(lhs.A_, rhs.A_);
''', '''    const std::vector<int> row_offsets(lhs.row_offsets_);
    const std::vector<int> col_offsets(lhs.col_offsets_);

    lhs.row_offsets_ = rhs.row_offsets_;
    lhs.col_offsets_ = rhs.col_offsets_;
    rhs.row_offsets_ = row_offsets;
    rhs.col_offsets_ = col_offsets;

    swap(lhs.A_, rhs.A_);
''')],
  'memory that runs out during the assignment of a block matrix',
  'the swap behind it, declared noexcept, copies the offsets: the process is terminated',
  '''static long left = -1;
void* operator new(size_t n) { if (left == 0) { throw std::bad_alloc(); } if (left > 0) { --left; } void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
int main() { BlockMatrix<double> A({0, 2, 3}), B({0, 1, 2, 4}); for (int k = 0; k < 60; ++k) { left = k; try { BlockMatrix<double> C; C = A; A = B; B = std::move(C); } catch (const std::bad_alloc&) { } left = -1; } }''')
S('C31-inverse-fallback', 'C31', [('src/densematrix.cpp', '''    lwork = static_cast<int>(qwork);
    std::vector<double> work(lwork);

    dgetri_(n, A, lda, ipiv.data(), work.data(), &lwork, &info);
''', '''    lwork = static_cast<int>(qwork);
    std::vector<double> work;

    try
    {
        work.resize(lwork);
    }
    catch (const std::bad_alloc&)
    {
        // Small inverses do not need the optimal work space
        static thread_local double reserve[32];

        lwork = 32;
        dgetri_(n, A, lda, ipiv.data(), reserve, &lwork, &info);

        return;
    }

    dgetri_(n, A, lda, ipiv.data(), work.data(), &lwork, &info);
''')],
  'memory that runs out for the work space of an inverse with more than 32 rows',
  'the fallback work space is too small, LAPACK refuses it and the factors are returned as the inverse',
  '''static long left = -1;
void* operator new(size_t n) { if (left == 0) { throw std::bad_alloc(); } if (left > 0) { --left; } void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
static bool finished = false; // LAPACK stops the program when it refuses an argument
int main() { std::atexit([] { if (!finished) { std::_Exit(1); } }); const int n = 40; DenseMatrix A(n, n); for (int i = 0; i < n; ++i) { A(i, i) = 2; A(i, (i + 1) % n) = 1; } for (int k = 0; k < 5; ++k) { DenseMatrix B(A); bool done = true; left = k; try { B.Invert(); } catch (const std::bad_alloc&) { done = false; } left = -1;
  if (done) { DenseMatrix C = A.Mult(B); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { NEED(std::fabs(C(i, j) - (i == j)) < 1e-9); } } } } finished = true; }''')

S('C32-solve-in-assert', 'C32', [('modules/sparsesolver/src/sparsesolve.cpp', '''    int status = umfpack_di_solve(UMFPACK_A, indptr, indices, data,
                                  out, in, numeric_, control_.data(), info_.data());

    umfpack_di_report_info(control_.data(), info_.data());

    assert(status == 0);
''', '''    assert(umfpack_di_solve(UMFPACK_A, indptr, indices, data, out, in, numeric_,
                            control_.data(), info_.data()) == 0);

    umfpack_di_report_info(control_.data(), info_.data());
''')],
  'a release build (assertions compiled out)',
  'the transposed solve disappears with the assertion and the result is never written',
  '''#include "sparsesolve.hpp"
int main() { CooMatrix<double> c(2, 2); c.Add(0, 0, 2.0); c.Add(0, 1, 1.0); c.Add(1, 1, 4.0); SparseSolver s(c.ToSparse()); Vector<double> b(2, 4.0), x(2, 9.0); s.MultAT(VectorView<double>(b), VectorView<double>(x)); NEED(std::fabs(x[0] - 2) < 1e-12 && std::fabs(x[1] - 0.5) < 1e-12); }''', mod='sparsesolver', flags='-O2 -DNDEBUG ')
S('C32-partition-in-assert', 'C32', [('modules/partition/include/partition.hpp', '''    METIS_PartGraphKway(&nvtxs, &ncon, xadj, adjncy, vwgt, vsize, adjwgt,
                             &nparts, tpwgts, &ubvec, options, &objval, part.data());
''', '''    assert(METIS_PartGraphKway(&nvtxs, &ncon, xadj, adjncy, vwgt, vsize, adjwgt,
                               &nparts, tpwgts, &ubvec, options, &objval, part.data()) == METIS_OK);
''')],
  'a release build (assertions compiled out)',
  'the partitioner is never called and every vertex gets part 0',
  '''#include "partition.hpp"
int main() { CooMatrix<double> c(8, 8); for (int i = 0; i < 7; ++i) { c.AddSym(i, i + 1, 1.0); } auto p = Partition(c.ToSparse(), 2); int two = 0; for (int x : p) { two += x == 1; } NEED(two > 0 && two < 8); }''', mod='partition', flags='-O2 -DNDEBUG ')

S('C33-block-console', 'C33', [('include/blockmatrix.hpp', '''            mat.Print(block_label.str(), out);
''', '''            mat.Print(block_label.str());
''')],
  'a block matrix printed to a stream other than the console',
  'the blocks go to the console, the stream gets the label only',
  '''int main() { BlockMatrix<double> b({0, 1, 2}); CooMatrix<double> c(1, 1); c.Add(0, 0, 4.5); b.SetBlock(0, 0, c.ToSparse()); std::ostringstream o; b.Print("b", o); NEED(o.str().find("4.5") != std::string::npos); }''')
S('C33-list-to-string', 'C33', [('include/lilmatrix.hpp', '''            out << "(" << i << ", " << j << ") " << val << "\\n";
''', '''            out << "(" + std::to_string(i) + ", " + std::to_string(j) + ") " + std::to_string(val) + "\\n";
''')],
  'a list matrix with small entries, or a stream with a precision of its own',
  'entries are printed with six decimals whatever they are: small ones become zero',
  '''int main() { LilMatrix<double> l(1, 1); l.Add(0, 0, 1e-9); std::ostringstream o; l.Print("l", o); NEED(o.str().find("1e-09") != std::string::npos); }''')
S('C33-sparse-line-buffer', 'C33', [(H, '''            out << "(" << i << ", " << indices_[j] << ") "
                << std::setw(width) << data_[j] << "\\n";
''', '''            std::stringstream line;
            line << "(" << i << ", " << indices_[j] << ") "
                 << std::setw(width) << data_[j] << "\\n";

            out << line.str();
''')],
  'a sparse matrix printed to a stream with more digits than the default',
  'the entries are formatted by another stream and lose the digits asked for',
  '''#include <iomanip>
int main() { CooMatrix<double> c(1, 1); c.Add(0, 0, 1.0 / 3); auto s = c.ToSparse(); std::ostringstream o; o << std::setprecision(12); s.Print("s", o); NEED(o.str().find("0.333333333333") != std::string::npos); }''')

S('C34-error-rewrapped', 'C34', [('src/blockoperator.cpp', '''                op->Mult(x_.GetBlock(j), tmp_);
                row_y += tmp_;
''', '''                try
                {
                    op->Mult(x_.GetBlock(j), tmp_);
                }
                catch (...)
                {
                    throw std::runtime_error("block (" + std::to_string(i) + ", " + std::to_string(j) + ") failed");
                }

                row_y += tmp_;
''')],
  'a block whose operator raises an error of its own type',
  'the error arrives as another one, its type and text lost',
  '''struct Mine { int code; };
struct Bad : Operator { Bad() : Operator(2, 2) {} void Mult(const VectorView<double>&, VectorView<double>) const override { throw Mine{7}; } };
int main() { Bad a; BlockOperator b({0, 2}); b.SetBlock(0, 0, a); Vector<double> x(2, 1.0), y(2); int code = 0; try { static_cast<const Operator&>(b).Mult(x, VectorView<double>(y)); } catch (const Mine& m) { code = m.code; } catch (...) {} NEED(code == 7); }''')
S('C34-clean-after', 'C34', [('src/solvers.cpp', '''      v0_(A_->Rows()), v1_(A_->Rows()),
      q_(A_->Rows())
{
    assert(A_->Rows() == A_->Cols());
}

MINRESSolver::MINRESSolver(const MINRESSolver& other)''', '''      v0_(A_->Rows()), v1_(A_->Rows()),
      q_(A_->Rows())
{
    assert(A_->Rows() == A_->Cols());

    w0_ = 0.0;
    w1_ = 0.0;
    v0_ = 0.0;
}

MINRESSolver::MINRESSolver(const MINRESSolver& other)'''), ('src/solvers.cpp', '''    const int size = A_->Cols();

    w0_ = 0.0;
    w1_ = 0.0;
    v0_ = 0.0;

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    double beta = std::sqrt((*Dot_)(v1_, v1_));''', '''    const int size = A_->Cols();

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    double beta = std::sqrt((*Dot_)(v1_, v1_));'''), ('src/solvers.cpp', '''            printf("MINRES %d: %.2e\\n", num_iter_, eta);
        }

        if (std::fabs(eta) <= tol)
        {
            break;
        }

        swap(v0_, v1_);
        swap(w0_, w1_);
    }
''', '''            printf("MINRES %d: %.2e\\n", num_iter_, eta);
        }

        if (std::fabs(eta) <= tol)
        {
            break;
        }

        swap(v0_, v1_);
        swap(w0_, w1_);
    }

    w0_ = 0.0;
    w1_ = 0.0;
    v0_ = 0.0;
''')],
  'a solve abandoned by an error of the operator, then another solve with the same object',
  'the second solve starts from the directions of the abandoned one',
  '''int left = -1;
struct Op : Operator { Op() : Operator(3, 3) {} void Mult(const VectorView<double>& x, VectorView<double> y) const override { if (left > 0 && --left == 0) { throw 1; } for (int i = 0; i < 3; ++i) { y[i] = (i + 2) * x[i] + (i ? x[i - 1] : 0) + (i < 2 ? x[i + 1] : 0); } } };
int main() { Op a; MINRESSolver s(a, 50, 1e-12); Vector<double> b(3, 1.0), x(3, 0.0), y(3, 0.0); static_cast<Operator&>(s).Mult(b, VectorView<double>(y)); left = 3; try { static_cast<Operator&>(s).Mult(b, VectorView<double>(x)); } catch (int) {} left = -1; x = 0.0; static_cast<Operator&>(s).Mult(b, VectorView<double>(x)); for (int i = 0; i < 3; ++i) { NEED(x[i] == y[i]); } }''')
S('C34-borrowed-workspace', 'C34', [('src/blockoperator.cpp', '''    y_ = input;

    x_ = 0.0;
''', '''    BlockVector<double> work(std::move(x_));

    y_ = input;

    work = 0.0;
'''), ('src/blockoperator.cpp', '''        VectorView<double> row_x {x_.GetBlock(j)};
        tmp_.SetSize(row_x.size());
''', '''        VectorView<double> row_x {work.GetBlock(j)};
        tmp_.SetSize(row_x.size());
'''), ('src/blockoperator.cpp', '''                row_x += tmp_;
            }
        }
    }

    output = x_;
''', '''                row_x += tmp_;
            }
        }
    }

    output = work;
    x_ = std::move(work);
''')],
  'a block that raises an error in MultAT, then another use of the same block operator',
  'the work vector is lost with the error: the next product reads memory that is not there',
  '''struct Bad : Operator { bool on = true; Bad() : Operator(2, 2) {} void Mult(const VectorView<double>& x, VectorView<double> y) const override { y[0] = x[0]; y[1] = 2 * x[1]; } void MultAT(const VectorView<double>& x, VectorView<double> y) const override { if (on) { throw 1; } Mult(x, y); } };
int main() { Bad a; BlockOperator b({0, 2}); b.SetBlock(0, 0, a); const Operator& o = b; Vector<double> x(2, 1.0), y(2); try { o.MultAT(x, VectorView<double>(y)); } catch (int) {} a.on = false; o.Mult(x, VectorView<double>(y)); NEED(y[0] == 1 && y[1] == 2); y = 0.0; o.MultAT(x, VectorView<double>(y)); NEED(y[0] == 1 && y[1] == 2); }''')
LOCALE = '''#include <locale>
#include <fstream>
#include <sstream>
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\3"; } };
const std::locale COMMA(std::locale::classic(), new Comma);
'''
S('C35-table-row-buffer', 'C35', [(PA, '''            const std::string space = j + 1 == indptr[i + 1] ? "" : " ";
            file << indices[j] << space;
        }

        file << "\\n";
''', '''            const std::string space = j + 1 == indptr[i + 1] ? "" : " ";
            row << indices[j] << space;
        }

        file << row.str() << "\\n";
'''), (PA, '''        for (int j = indptr[i]; j < indptr[i + 1]; ++j)
        {
            const std::string space =''', '''        std::ostringstream row;

        for (int j = indptr[i]; j < indptr[i + 1]; ++j)
        {
            const std::string space =''')],
  'a table with column indices of four digits, written while the global locale groups digits',
  'the indices are written with separators and read back as others',
  LOCALE + '''int main() { CooMatrix<double> c(2, 2000); c.Add(0, 1500, 1.0); c.Add(1, 3, 1.0); auto s = c.ToSparse(); std::locale::global(COMMA); WriteTable(s, "t.txt"); std::locale::global(std::locale::classic()); auto t = ReadTable("t.txt"); NEED(t.Cols() == 1501 && t.nnz() == 2); }''')
S('C35-value-buffer', 'C35', [(PA, '''    for (const auto& val : vect)
    {
        file << val << "\\n";
    }
''', '''    std::ostringstream lines;
    lines.precision(file.precision());

    for (const auto& val : vect)
    {
        lines << val << "\\n";
    }

    file << lines.str();
''')],
  'a vector written to a text file while the global locale has another decimal point',
  'the file has a decimal comma and cannot be read any more',
  LOCALE + '''int main() { std::vector<double> v = {1.5, 1234.25}; std::locale::global(COMMA); WriteText(v, "v.txt"); std::locale::global(std::locale::classic()); std::vector<double> w; try { w = ReadText("v.txt"); } catch (const std::exception&) {} NEED(w == v); }''')
S('C35-row-buffer', 'C35', [('src/densematrix.cpp', '''    ss << label << "\\n";

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = 0; j < cols_; ++j)
        {
            // at least one blank''', '''    ss << label << "\\n";

    std::ostream& text = ss;

    for (int i = 0; i < rows_; ++i)
    {
        std::stringstream ss;

        for (int j = 0; j < cols_; ++j)
        {
            // at least one blank'''), ('src/densematrix.cpp', '''        ss << "\\n";
    }

    ss << "\\n";

    out << ss.str();
}
''', '''        text << ss.str() << "\\n";
    }

    ss << "\\n";

    out << ss.str();
}
''')],
  'a dense matrix printed to a stream whose locale is not the global one',
  'the numbers are printed with the decimal point of the global locale',
  LOCALE + '''int main() { DenseMatrix A(1, 1, {1.5}); std::ostringstream o; std::locale::global(COMMA); A.Print("A", o); std::locale::global(std::locale::classic()); NEED(o.str().find("1.5000") != std::string::npos); }''')
S('C22-byte-counts', 'C22', [('modules/partition/include/partition.hpp', '''    std::vector<int> counter(num_parts, 0);''', '''    std::vector<unsigned char> counter(num_parts, 0);''')],
  'a labeling in which a label is used exactly 256 times (or a multiple)',
  'the count of that label wraps to zero, it is taken for an empty one and merged with its predecessor',
  '''int main() { std::vector<int> p(300, 0); for (int i = 0; i < 256; ++i) { p[i] = 2; } p[299] = 1; auto q = p; RemoveEmpty(q); NEED(q == p); }''', mod='partition')
S('C22-sorted-labels', 'C22', [('modules/partition/include/partition.hpp', '''    const int num_parts = *std::max_element(std::begin(partition), std::end(partition)) + 1;
''', '''    if (std::is_sorted(std::begin(partition), std::end(partition)) && partition.front() == 0 && partition.back() < static_cast<int>(partition.size()))
    {
        const int size = partition.size();
        int label = 0;

        for (int i = 1; i < size; ++i)
        {
            if (partition[i] != label)
            {
                ++label;
            }

            partition[i] = label;
        }

        return;
    }

    const int num_parts = *std::max_element(std::begin(partition), std::end(partition)) + 1;
''')],
  'labels in increasing order with a gap that is followed by a repeated label',
  'vertices of one part are separated: after a gap the running label never catches up with the old one',
  '''int main() { std::vector<int> p = {0, 2, 2}; RemoveEmpty(p); NEED(p[0] == 0 && p[1] == 1 && p[2] == 1); }''', mod='partition')
S('C24-float-interval', 'C24', [('src/timer.cpp', '''    std::chrono::duration<double> elapsed_time = times_[index + 1] - times_[index];''', '''    std::chrono::duration<float> elapsed_time = times_[index + 1] - times_[index];''')],
  'an interval whose length has more than seven significant digits',
  'the interval is rounded to single precision, so the intervals no longer add up to the total',
  '''#include <time.h>
static long long now_ns = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now_ns / 1000000000LL; t->tv_nsec = now_ns % 1000000000LL; return 0; }
int main() { Timer t; t.Click(); now_ns += 7200000100000LL; t.Click(); NEED(std::fabs(t[0] - 7200.0001) < 1e-6); }''')
S('C24-restart', 'C24', [('src/timer.cpp', '''    times_.push_back(std::chrono::high_resolution_clock::now());
''', '''    const auto now = std::chrono::high_resolution_clock::now();

    if (!times_.empty() && now < times_.front())
    {
        // the clock was set back
        times_.clear();
    }

    times_.push_back(now);
''')],
  'a clock that is set back behind the first click',
  'the readings so far are dropped, the number of intervals shrinks',
  '''#include <time.h>
static long long now_ns = 5000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now_ns / 1000000000LL; t->tv_nsec = now_ns % 1000000000LL; return 0; }
int main() { Timer t; t.Click(); now_ns += 1000000000LL; t.Click(); now_ns -= 3000000000LL; t.Click(); NEED(std::fabs(t.TotalTime() + 2.0) < 1e-9); }''')
S('C08-relative-magnitude', 'C08', [('src/eigensolver.cpp', '''    const double tol = evals.back() * rel_tol;
''', '''    const double tol = std::max(std::fabs(evals.front()), std::fabs(evals.back())) * rel_tol;
''')],
  'a matrix whose eigenvalue of largest magnitude is negative, with a tolerance below one',
  'the threshold is relative to the magnitude instead of the largest eigenvalue: more eigenvectors are returned than asked for',
  '''int main() { DenseMatrix A(3, 3); A(0, 0) = -10; A(1, 1) = 1; A(2, 2) = 2; EigenSolver e; auto p = e.Solve(A, 0.25, -1); NEED(p.second.Cols() == 1); }''')
S('C25-int-inclusive', 'C25', [('src/vectorview.cpp', '''    std::uniform_int_distribution<int> gen(lo, hi);

    if (seed >= 0)
    {
        dev.seed(seed);
    }

    for (int& val : vect)
    {
        val = gen(dev);
    }
''', '''    if (seed >= 0)
    {
        dev.seed(seed);
    }

    const unsigned int range = hi - lo + 1;

    for (int& val : vect)
    {
        val = lo + static_cast<int>(dev() % range);
    }
''')],
  'the full range of an int (or any range whose width does not fit)',
  'the width overflows, the fill divides by zero or leaves the range',
  '''int main() { Vector<int> v(50); Randomize(v, -2147483647 - 1, 2147483647, 3); int lo = 0, hi = 0; for (int x : v) { lo += x < 0; hi += x > 0; } NEED(lo > 0 && hi > 0); }''')
S('C18-binary-small', 'C18', [('include/parser.hpp', '''    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
''', '''    std::filebuf& buffer = *file.rdbuf();

    buffer.sputn(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
    buffer.sputn(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
    buffer.sputn(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
''')],
  'a binary matrix of more than one stream buffer on a full disk',
  'blocks that bypass the buffer and do not fit are not noticed, since only the stream and not the buffer is asked',
  '''#include <sys/resource.h>
#include <signal.h>
int main() { signal(SIGXFSZ, SIG_IGN); const int n = 20000; std::vector<int> ip(2, 0), ix(n); std::vector<double> d(n, 1.0); ip[1] = n; for (int i = 0; i < n; ++i) { ix[i] = i; } SparseMatrix<double> s(ip, ix, d, 1, n);
 struct rlimit r; r.rlim_cur = 24 + 8 + 4 * n + 4096; r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r); bool told = false; try { WriteBinary(s, "m.bin"); } catch (std::exception&) { told = true; } NEED(told); }''')
S('C04-int-key', 'C04', [('include/coomatrix.hpp', '''    std::vector<std::unordered_map<int, int>> index_map(rows);
''', '''    std::unordered_map<unsigned int, int> index_map;
    const auto key = [cols] (unsigned int i, unsigned int j)
    {
        return i * cols + j;
    };
'''), ('include/coomatrix.hpp', '''        auto search = index_map[row].find(col);

        if (search == index_map[row].end())
        {
            indptr[row + 1]++;
            int size = index_map[row].size();
            index_map[row][col] = size;
        }
    }
''', '''        if (index_map.insert(std::make_pair(key(row, col), indptr[row + 1])).second)
        {
            indptr[row + 1]++;
        }
    }
'''), ('include/coomatrix.hpp', '''        int index = indptr[i] + index_map[i].at(j);''', '''        int index = indptr[i] + index_map.at(key(i, j));''')],
  'a matrix with more cells than 2^32 and two entries whose cell numbers differ by a multiple of 2^32',
  'the two entries are taken for one',
  '''int main() { const int n = 65537; CooMatrix<double> c(n, n); c.Add(0, 5, 1.0); long cell = 5 + (1L << 32); int i = cell / n, j = cell % n; c.Add(i, j, 2.0); auto s = c.ToSparse(); NEED(s.nnz() == 2); NEED(s.RowSize(i) == 1 && s.GetIndices()[s.GetIndptr()[i]] == j); }''')
S('C03-bit-marker', 'C03', [(H, '''    for (int row = 0; row < rows_; ++row)
    {
        for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
        {
            if (marker[indices_[j]])
            {
                data_[j] = 0.0;
            }
        }
    }
''', '''    unsigned long long any = 0;

    for (int col = 0; col < cols_; ++col)
    {
        any |= marker[col] ? 1ull << (col % 64) : 0ull;
    }

    if (any == 0)
    {
        return;
    }

    for (int row = 0; row < rows_; ++row)
    {
        for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
        {
            if (cols_ <= 64 ? marker[indices_[j]] : (any >> (indices_[j] % 64)) & 1)
            {
                data_[j] = 0.0;
            }
        }
    }
''')],
  'a matrix of more than 64 columns with an entry 64 columns away from a marked one',
  'columns whose number agrees with a marked one modulo 64 are eliminated too',
  '''int main() { SparseMatrix<double> s({0, 2}, {3, 67}, {1., 2.}, 1, 70); std::vector<int> m(70, 0); m[3] = 1; s.EliminateCol(m); NEED(s.GetData()[0] == 0 && s.GetData()[1] == 2); }''')
S('C01-unrolled-tail', 'C01', [(H, '''        V val = 0;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            val += data_[j] * input[indices_[j]];
        }

        output[i] = val;
''', '''        V val = 0;

        int j = indptr_[i];

        for (const int stop = indptr_[i + 1] - 8; j <= stop; j += 8)
        {
            for (int k = 0; k < 8; ++k)
            {
                val += data_[j + k] * input[indices_[j + k]];
            }
        }

        if (j < indptr_[i + 1] && indptr_[i + 1] - indptr_[i] > 8)
        {
            j = std::max(j, indptr_[i + 1] - 6);
        }

        for (; j < indptr_[i + 1]; ++j)
        {
            val += data_[j] * input[indices_[j]];
        }

        output[i] = val;
''')],
  'a row of more than eight entries whose length is seven more than a multiple of eight',
  'one entry of the tail is left out of the product',
  '''int main() { int n = 15; std::vector<int> ip = {0, n}, ix(n); std::vector<double> d(n, 1.0); for (int i = 0; i < n; ++i) { ix[i] = i; } SparseMatrix<double> s(ip, ix, d, 1, n); Vector<double> x(n, 1.0); auto y = s.Mult(x); NEED(y[0] == 15); }''')
S('C28-static-marker', 'C28', [(H, '''    std::vector<int> marker(rhs.Cols());

    return Mult<U, V>(rhs, marker);''', '''    static std::vector<int> marker;

    return Mult<U, V>(rhs, marker);''')],
  'two threads multiplying sparse matrices at the same time',
  'both products use one workspace',
  '''#include <thread>
#include <atomic>
int main() { auto id = [](int n, int s) { std::vector<int> ip(n + 1), ix(n); std::vector<double> d(n, 1.0); for (int i = 0; i < n; ++i) { ip[i + 1] = i + 1; ix[i] = (i + s) % n; } return SparseMatrix<double>(ip, ix, d, n, n); };
 auto A = id(3000, 1), B = id(17, 2); std::atomic<int> bad(0); auto go = [&](const SparseMatrix<double>& M) { for (int k = 0; k < 3000 && !bad; ++k) { auto P = M.Mult(M); if (P.nnz() != M.Rows()) { ++bad; } } }; std::thread t([&] { go(B); }); go(A); t.join(); NEED(bad == 0); }''', flags='-fsanitize=thread -pthread ')
S('C05-split-inner', 'C05', [('src/densematrix.cpp', '''    dgemm_(&transA, &transB, &m, &n, &k,
           &alpha, A, &lda, B, &ldb,
           &beta, c, &ldc);
''', '''    const int panel = 512;
    const int inner = k;

    for (int start = 0; start < inner; start += panel)
    {
        k = std::min(panel, inner - start);
        dgemm_(&transA, &transB, &m, &n, &k,
               &alpha, AT ? A + start : A + start * lda, &lda, BT ? B + start : B + start, &ldb,
               &beta, c, &ldc);
        beta = 1.0;
    }
''')],
  'a product with a transposed right factor and more than 512 inner entries',
  'the second panel of the transposed right factor starts at the wrong entry',
  '''int main() { const int k = 600; DenseMatrix A(1, k), B(2, k); double w = 0; for (int i = 0; i < k; ++i) { A(0, i) = 1; B(0, i) = i; B(1, i) = 2 * i; w += i; } auto C = A.MultBT(B); NEED(C(0, 0) == w && C(0, 1) == 2 * w); }''')
S('C13-tolerance-of-b', 'C13', [('src/solvers.cpp', '''    const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);

    num_iter_ = 0;

    if ((*Dot_)(z_, r_) <= tol_tol)
''', '''    double reference = r0;

    if (!M_)
    {
        reference = std::max(r0, (*Dot_)(b, b));
    }

    const double tol_tol = std::max(reference * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);

    num_iter_ = 0;

    if ((*Dot_)(z_, r_) <= tol_tol)
''')],
  'a starting guess whose residual is smaller than the right-hand side',
  'the relative tolerance is taken from the right-hand side: the iteration stops before the residual has dropped by the factor asked for',
  '''int main() { SparseMatrix<double> A({0, 1, 2, 3}, {0, 1, 2}, {1., 10., 100.}, 3, 3); Vector<double> b(3, 1000.0), x(3); x[0] = 1000.5; x[1] = 100.1; x[2] = 10.002; double r0 = 0; { auto y = A.Mult(x); for (int i = 0; i < 3; ++i) { r0 += (b[i] - y[i]) * (b[i] - y[i]); } }
 CG(A, b, x, 100, 1e-2, 0.0, false); auto y = A.Mult(x); double r = 0; for (int i = 0; i < 3; ++i) { r += (b[i] - y[i]) * (b[i] - y[i]); } NEED(std::sqrt(r) <= 1.0001e-2 * std::sqrt(r0)); }''')
S('C19-table-tab', 'C19', [('include/parser.hpp', '''    for (std::string line; std::getline(file, line); )
    {
        std::stringstream stream(line);''', '''    for (std::string line; std::getline(file, line); )
    {
        if (line.size() > 4095)
        {
            line.resize(4095);
        }

        std::stringstream stream(line);''')],
  'a table with a line of more than 4095 characters',
  'the rest of the line is dropped',
  '''#include <fstream>
int main() { { std::ofstream f("t.txt"); for (int i = 0; i < 2000; ++i) { f << i << " "; } f << "\\n"; } auto t = ReadTable("t.txt"); NEED(t.nnz() == 2000 && t.Cols() == 2000); }''')
S('C16-mtx-precision', 'C16', [('include/parser.hpp', '''    file.precision(16);
    file << "%%MatrixMarket matrix coordinate real general\\n";''', '''    file.precision(std::numeric_limits<T>::digits10);
    file << "%%MatrixMarket matrix coordinate real general\\n";''')],
  'a value that needs a sixteenth digit',
  'the last digit is lost in Matrix Market files',
  '''int main() { SparseMatrix<double> s({0, 1}, {0}, {1.0 / 3}, 1, 1); WriteMTX(s, "m.mtx"); auto t = ReadMTX("m.mtx"); NEED(std::fabs(t.GetData()[0] - 1.0 / 3) < 1e-16); }''')
S('C07-pivot-threshold', 'C07', [('src/densematrix.cpp', '''    // Invert
    int lwork = -1;''', '''    for (int i = 0; i < mn_min; ++i)
    {
        if (std::fabs(A[i * rows + i]) < 1e-14)
        {
            A[i * rows + i] = 1e-14;
        }
    }

    // Invert
    int lwork = -1;''')],
  'a regular matrix with entries of tiny magnitude',
  'small pivots are replaced, the inverse of a well conditioned tiny matrix is wrong',
  '''int main() { DenseMatrix A(2, 2); A(0, 0) = 1e-20; A(1, 1) = 2e-20; A.Invert(); NEED(std::fabs(A(0, 0) - 1e20) < 1e10 && std::fabs(A(1, 1) - 5e19) < 1e10); }''')
S('C09-zero-alpha', 'C09', [('include/vectorview.hpp', '''    for (int i = 0; i < size_; ++i)
    {
        data_[i] = alpha * rhs[i];
    }
''', '''    const T scale = alpha;

    for (int i = 0; i < size_; ++i)
    {
        data_[i] = scale * rhs[i];
    }
''')],
  'an integer vector set to a fractional multiple of another',
  'the factor is truncated before the multiplication',
  '''int main() { Vector<int> a(2), b(2); b[0] = 4; b[1] = 6; a.Set(0.5, b); NEED(a[0] == 2 && a[1] == 3); }''')
S('C12-nested-static', 'C12', [('src/blockoperator.cpp', '''        VectorView<double> row_x {x_.GetBlock(j)};
        tmp_.SetSize(row_x.size());
''', '''        VectorView<double> row_x {x_.GetBlock(j)};

        if (tmp_.size() < row_x.size())
        {
            tmp_.SetSize(row_x.size());
        }

        const bool larger = tmp_.size() > row_x.size();
        Vector<double> exact(larger ? row_x.size() : 0);
        VectorView<double> tmp_(larger ? exact : this->tmp_);
'''), ('src/blockoperator.cpp', '''                op->MultAT(row_block, tmp_);

                row_x += tmp_;''', '''                op->MultAT(row_block, tmp_);

                if (row_x.size() == 1 && i > 0)
                {
                    row_x = tmp_;
                    continue;
                }

                row_x += tmp_;''')],
  'a transposed application in which a block column of a single entry has several set blocks',
  'the contribution of the last block replaces those before it',
  '''int main() { SparseMatrix<double> a({0, 1}, {0}, {2.}, 1, 1), b({0, 1}, {0}, {3.}, 1, 1); BlockOperator o({0, 1, 2}, {0, 1}); o.SetBlock(0, 0, a); o.SetBlock(1, 0, b); Vector<double> x(2, 1.0), y(1); o.MultAT(x, y); NEED(y[0] == 5); }''')
S('C20-minus-value', 'C20', [('src/argparser.cpp', '''        if ((iter + 1) != entries.end() && !IsFlag(*(iter + 1)))
        {''', '''        const bool last = (iter + 1) == entries.end();
        const bool negative = !last && (iter + 1)->size() > 1 && (*(iter + 1))[0] == '-' && std::isdigit((*(iter + 1))[1]);

        if (!last && (negative || (iter + 1)->compare(0, 1, "-") != 0))
        {''')],
  'a value that begins with a minus sign but not with a digit after it, such as -.5 or -inf',
  'the value is taken for another option',
  '''int main() { const char* a[] = {"p", "--x", "-.5"}; ArgParser p(3, a); double x = 0; p.Parse(x, "--x", "h"); NEED(x == -.5 && p.IsGood()); }''')
S('C23-transposed-check', 'C23', [('modules/sparsesolver/src/sparsesolve.cpp', '''    int status = umfpack_di_solve(UMFPACK_A, indptr, indices, data,
                                  out, in, numeric_, control_.data(), info_.data());
''', '''    std::vector<double> control(control_);
    control[UMFPACK_IRSTEP] = A_.nnz() > 4 * A_.Rows() ? 0 : control[UMFPACK_IRSTEP];

    int sys = UMFPACK_A;

    if (A_.nnz() == 2 * A_.Rows() && A_.GetIndices()[0] == 0 && A_.GetIndices()[1] == A_.Rows() - 1)
    {
        // the pattern of a periodic bidiagonal matrix is symmetric
        sys = UMFPACK_At;
    }

    int status = umfpack_di_solve(sys, indptr, indices, data,
                                  out, in, numeric_, control.data(), info_.data());
''')],
  'the transposed solve of a matrix with two entries per row, the first row holding the first and the last column',
  'the transposed system is solved as the plain one',
  '''int main() { SparseMatrix<double> A({0, 2, 4, 6}, {0, 2, 0, 1, 1, 2}, {2., 1., 1., 2., 1., 2.}, 3, 3); SparseSolver s(A); Vector<double> b(3), x(3); b[0] = 1; b[1] = 2; b[2] = 4; s.MultAT(b, x); auto y = A.MultAT(x); double r = 0; for (int i = 0; i < 3; ++i) { r += std::fabs(y[i] - b[i]); } NEED(r < 1e-10); }''', mod='sparsesolver')

PAR = """
const MPI_Comm W = MPI_COMM_WORLD;
typedef std::vector<int> I;
"""
S('C27-sorted-already', 'C27', [('modules/parlinalgcpp/src/parutilities.cpp', '''    auto compare = [&](int i, int j)
    {
        return col_map[i] < col_map[j];
    };''', '''    // Columns of one neighbour are already in order
    if (col_map_size > 1 && col_map.front() < col_map[1] && col_map.front() < col_map.back())
    {
        auto last = std::is_sorted_until(std::begin(col_map), std::end(col_map));

        if (last - std::begin(col_map) > 2)
        {
            return;
        }
    }

    auto compare = [&](int i, int j)
    {
        return col_map[i] < col_map[j];
    };''')],
  'a sum or a split in which a process first meets at least three off-diagonal columns in ascending order and then smaller ones, the last one being above the first',
  'the column map is left unsorted; values end up in the wrong columns or construction stops',
  PAR + '''int main()
{
    int bad = 0;
    ranks::run(2, ranks::alternating, [&](int r)
    {
        I starts = {2 * r, 2 * r + 2, 4};
        int n = 6; I part = {0, 0, 1, 1, 1, 1};
        SparseMatrix<double> g({0, 3, 5, 6, 7, 8, 9}, {0, 2, 4, 1, 3, 2, 3, 4, 5}, {1., 2., 3., 4., 5., 6., 7., 8., 9.}, n, n);
        CooMatrix<double> c(n, n); const int cols[2][3] = {{2, 4, 5}, {3, 4, 5}};
        for (int i = 0; i < n; ++i) { c.Add(i, i, 1.); } for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) { c.Add(i, cols[i][k], 10. * i + cols[i][k]); }
        ParMatrix a = ParSplit(W, c.ToSparse(), part);
        if (!std::is_sorted(a.GetColMap().begin(), a.GetColMap().end())) { bad = 1; }
        Vector<double> x(a.Cols()); for (int i = 0; i < x.size(); ++i) { x[i] = r ? 3 + i : 1 + i; }
        Vector<double> y = a.Mult(x);
        if (r == 0 && (y[0] != 1 + 2 * 3 + 4 * 5 + 5 * 6 || y[1] != 2 + 13 * 4 + 14 * 5 + 15 * 6)) { bad = 1; }
    });
    NEED(!bad);
}''', mod='parlinalgcpp')
S('C27-quiet-rank', 'C27', [('modules/parlinalgcpp/src/parvector.cpp', '''    double local_sum = lhs.Mult(rhs);

    double global_sum;''', '''    double local_sum = lhs.Mult(rhs);

    if (local_sum == 0.0 && L2Norm(lhs) == 0.0)
    {
        return 0.0;
    }

    double global_sum;''')],
  'a distributed inner product in which the share of one process is entirely zero and that of another is not',
  'that process leaves without taking part in the reduction: the others wait forever',
  PAR + '''int main()
{
    double p[2] = {0, 0};
    ranks::run(2, ranks::ascending, [&](int r) { Vector<double> x(2, r ? 3. : 0.), y(2, 2.); p[r] = ParMult(W, x, y); });
    NEED(p[0] == 12 && p[1] == 12);
}''', mod='parlinalgcpp')
S('C27-transposed-map', 'C27', [('modules/parlinalgcpp/src/hypre_ops.cpp', '''            for (i = 1; i < counter; i++)
            {
                if (value < AT_buf_j[i])
                {''', '''            for (i = 1; i < counter; i++)
            {
                if (value < AT_buf_j[i] && (num_sends == 1 || AT_buf_j[i] != value + num_cols))
                {''')],
  'a transpose on a process with columns wanted by two others, whose rows lie exactly its number of columns apart',
  'such a row is left out of the column map of the transposed matrix',
  PAR + '''int main()
{
    std::vector<Vector<double>> y(3);
    ranks::run(3, ranks::alternating, [&](int r)
    {
        I part = {0, 1, 2};
        CooMatrix<double> c(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { c.Add(i, j, 1. + 3 * i + j); }
        ParMatrix a = ParSplit(W, c.ToSparse(), part), t = a.Transpose();
        y[r] = t.Mult(Vector<double>(1, 1. + r));
    });
    NEED(y[0][0] == 1 + 8 + 21 && y[1][0] == 2 + 10 + 24 && y[2][0] == 3 + 12 + 27);
}''', mod='parlinalgcpp')

# ---- a further independent batch
D = 'src/densematrix.cpp'
S('C02-skip-stored-zeros', 'C02', [(H, '''        int row_nnz = total;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
''', '''        int row_nnz = total;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            if (data_[j] == T(0))
            {
                continue;
            }

''')],
  'a product whose left factor stores an explicit zero (after an elimination, say) in front of other rows',
  'the numeric pass skips what the counting pass counted: row boundaries and entries no longer fit',
  '''int main() { SparseMatrix<double> A({0, 2, 3}, {0, 1, 0}, {5., 3., 2.}, 2, 2); A.EliminateCol(1); SparseMatrix<double> B({0, 1, 2}, {0, 1}, {7., 11.}, 2, 2);
 auto C = A.Mult(B); C.SortIndices(); auto d = C.ToDense(); NEED(d(0, 0) == 35 && d(0, 1) == 0 && d(1, 0) == 14 && d(1, 1) == 0); Vector<double> x(2, 1.); auto y = C.Mult(x); NEED(y[0] == 35 && y[1] == 14); }''')
S('C03-eliminate-zero-value', 'C03', [(H, '''            if (marker[indices_[j]] && data_[j] != 0.0)
            {''', '''            if (marker[indices_[j]] && data_[j] != 0.0 && x[indices_[j]] != 0.0)
            {''')],
  'elimination of marked columns with prescribed values one of which is zero',
  'such a column is left in the matrix',
  '''int main() { SparseMatrix<double> A({0, 2, 4}, {0, 1, 0, 1}, {1., 2., 3., 4.}, 2, 2); std::vector<int> m{0, 1}; Vector<double> x(2, 0.), b(2, 1.);
 A.EliminateCol(m, x, b); auto d = A.ToDense(); NEED(d(0, 1) == 0 && d(1, 1) == 0 && d(0, 0) == 1 && b[0] == 1); }''')
S('C03-nonzero-rowcol', 'C03', [(H, '''            if (marker[row] || marker[col])
            {
                data_[j] = (row == col) ? 1.0 : 0.0;
            }''', '''            if ((marker[row] || marker[col]) && data_[j] != T(0))
            {
                data_[j] = (row == col) ? 1.0 : 0.0;
            }''')],
  'elimination of marked rows and columns in a matrix with a stored zero on its diagonal (a saddle point, or after EliminateRow)',
  'the eliminated row does not get its unit diagonal: the matrix becomes singular',
  '''int main() { SparseMatrix<double> A({0, 2, 4}, {0, 1, 0, 1}, {2., 1., 1., 0.}, 2, 2); std::vector<int> m{0, 1};
 A.EliminateRowCol(m); auto d = A.ToDense(); NEED(d(1, 1) == 1 && d(0, 1) == 0 && d(1, 0) == 0 && d(0, 0) == 2); }''')
S('C03-diag-breaks', 'C03', [(H, '''            if (indices_[j] == i)
            {
                data_[j] += val;
            }''', '''            if (indices_[j] > i)
            {
                break;
            }

            if (indices_[j] == i)
            {
                data_[j] += val;
            }''')],
  'adding to the diagonal of a matrix whose rows are not in ascending column order',
  'the search stops before it reaches the diagonal entry',
  '''int main() { SparseMatrix<double> A({0, 2, 4}, {1, 0, 0, 1}, {2., 1., 1., 3.}, 2, 2); A.AddDiag(10.); auto d = A.ToDense(); NEED(d(0, 0) == 11 && d(1, 1) == 13 && d(0, 1) == 2); }''')
S('C04-lil-symmetric-shortcut', 'C04', [('include/lilmatrix.hpp', '''    const int num_rows = values.Rows();
    const int num_cols = values.Cols();

    for (int j = 0; j < num_cols; ++j)
    {
        const int col = cols[j];

        for (int i = 0; i < num_rows; ++i)
        {
            const int row = rows[i];
            const double val = values(i, j);
''', '''    const int num_rows = values.Rows();
    const int num_cols = values.Cols();
    const bool symmetric = (&rows == &cols);

    for (int j = 0; j < num_cols; ++j)
    {
        const int col = cols[j];

        for (int i = 0; i < num_rows; ++i)
        {
            const int row = rows[i];
            const double val = symmetric && i > j ? values(j, i) : values(i, j);
''')],
  'a nonsymmetric element matrix added by one index list',
  'the lower triangle of the contribution is replaced by the upper one',
  '''int main() { LilMatrix<double> L(2, 2); DenseMatrix v(2, 2); v(0, 0) = 1; v(0, 1) = 2; v(1, 0) = 3; v(1, 1) = 4; std::vector<int> id{1, 0}; L.Add(id, v);
 auto d = L.ToDense(); NEED(d(1, 1) == 1 && d(1, 0) == 2 && d(0, 1) == 3 && d(0, 0) == 4); }''')
S('C05-scale-by-zero', 'C05', [(D, '''    for (auto& i : data_)
    {
        i *= val;
    }
''', '''    for (auto& i : data_)
    {
        i = (val == 0.5) ? i - i / 2.0 : i * val;

        if (i < 1e-300 && i > -1e-300)
        {
            i = 0.0;
        }
    }
''')],
  'a product with a scalar that leaves entries below 1e-300', 'small but representable results are flushed to zero',
  '''int main() { DenseMatrix A(1, 2); A(0, 0) = 1e-200; A(0, 1) = 2; A *= 1e-105; NEED(A(0, 0) == 1e-200 * 1e-105 && A(0, 0) != 0 && A(0, 1) == 2e-105); }''')
S('C06-transpose-block-shape', 'C06', [(D, '''    SetSubMatrixTranspose(start_i, start_j, start_i + dense.Cols(), start_j + dense.Rows(), dense);''',
 '''    SetSubMatrixTranspose(start_i, start_j, start_i + std::min(dense.Cols(), rows_ - start_i),
                          start_j + std::min(dense.Rows(), rows_ - start_j), dense);''')],
  'a transposed block written near the right end of a matrix with more columns than rows',
  'columns of the block beyond the number of rows are silently dropped',
  '''int main() { DenseMatrix A(2, 4); A = 0.; DenseMatrix b(2, 2); b(0, 0) = 1; b(0, 1) = 2; b(1, 0) = 3; b(1, 1) = 4; A.SetSubMatrixTranspose(0, 1, b); NEED(A(0, 1) == 1 && A(1, 1) == 2 && A(0, 2) == 3 && A(1, 2) == 4); }''')
S('C08-wider-kept', 'C08', [('src/eigensolver.cpp', '''    evects.SetSize(n, m);''', '''    if (evects.Rows() != n || evects.Cols() < m)
    {
        evects.SetSize(n, m);
    }''')],
  'a pair that is filled again by a solve that asks for fewer vectors of a matrix of the same size',
  'the columns of the former solve are still there, as if they were eigenvectors of this matrix',
  '''int main() { EigenSolver s; EigenPair p; DenseMatrix A(2, 2); A(0, 0) = 1; A(1, 1) = 5; A(0, 1) = A(1, 0) = 0; s.Solve(A, 1.0, 2, p); NEED(p.second.Cols() == 2); s.Solve(A, 1.0, 1, p); NEED(p.second.Cols() == 1); }''')
S('C09-norm-scaled', 'C09', [('include/vectorview.hpp', '''double VectorView<T>::L2Norm() const
{
    return std::sqrt(InnerProduct(*this, *this));
}''', '''double VectorView<T>::L2Norm() const
{
    T largest = 0;

    for (const T& val : *this)
    {
        largest = std::max(largest, val);
    }

    if (largest == 0)
    {
        return 0.0;
    }

    return std::sqrt(InnerProduct(*this, *this));
}''')],
  'the norm of a nonzero vector without a positive entry', 'the norm is reported as zero',
  '''int main() { Vector<double> x(2); x[0] = -3; x[1] = -4; NEED(std::fabs(x.L2Norm() - 5) < 1e-12); NEED(std::fabs(L2Norm(x) - 5) < 1e-12); }''')
S('C13-euclidean-denominator', 'C13', [('src/solvers.cpp', '''        double denom = (*Dot_)(z_, r_);

        r_.Sub(alpha, Ap_);

        if (M_)
        {
            z_ = 0.0;''', '''        double denom = z_.Mult(r_);

        r_.Sub(alpha, Ap_);

        if (M_)
        {
            z_ = 0.0;''')],
  'a solver given an inner product of its own', 'directions are combined with a mixture of two inner products; conjugacy is lost and the iteration limit is hit',
  '''double W2(const VectorView<double>& a, const VectorView<double>& b) { return 3.0 * (a.Mult(b)); }
int main() { CooMatrix<double> c(4, 4); for (int i = 0; i < 4; ++i) { c.Add(i, i, 2. + i); if (i) c.AddSym(i, i - 1, -1.); } auto A = c.ToSparse(); Vector<double> b(4), x(4, 0.); for (int i = 0; i < 4; ++i) b[i] = 1 + i * i;
 PCGSolver s(A, 5, 1e-10, 1e-30, false, W2); s.Mult(b, x); auto r = A.Mult(x); r -= b; NEED(r.L2Norm() < 1e-6); NEED(s.GetNumIterations() <= 5); }''')
S('C14-euclidean-beta', 'C14', [('src/solvers.cpp', '''        const double delta = gamma2 * alpha - gamma * sigma2 * beta;
        const double rho3 = sigma * beta;
        const double rho2 = sigma2 * alpha + gamma * gamma2 * beta;

        beta = std::sqrt((*Dot_)(v0_, v0_));

        const double rho1 = std::sqrt((delta * delta) + (beta * beta));

        for (int i = 0; i < size; ++i)
        {
            w0_[i] = ((1.0 / rho1) * v1_[i])''', '''        const double delta = gamma2 * alpha - gamma * sigma2 * beta;
        const double rho3 = sigma * beta;
        const double rho2 = sigma2 * alpha + gamma * gamma2 * beta;

        beta = v0_.L2Norm();

        const double rho1 = std::sqrt((delta * delta) + (beta * beta));

        for (int i = 0; i < size; ++i)
        {
            w0_[i] = ((1.0 / rho1) * v1_[i])''')],
  'MINRES with an inner product of its own', 'the recurrence mixes two inner products: it ends on a wrong solution',
  '''double W2(const VectorView<double>& a, const VectorView<double>& b) { return 4.0 * (a.Mult(b)); }
int main() { CooMatrix<double> c(4, 4); for (int i = 0; i < 4; ++i) { c.Add(i, i, i % 2 ? -2. - i : 2. + i); if (i) c.AddSym(i, i - 1, -1.); } auto A = c.ToSparse(); Vector<double> b(4), x(4, 0.); for (int i = 0; i < 4; ++i) b[i] = 1 + i * i;
 MINRESSolver s(A, 12, 1e-10, 1e-30, false, W2); s.Mult(b, x); auto r = A.Mult(x); r -= b; NEED(r.L2Norm() < 1e-6); }''')
S('C20-help-prefix', 'C20', [('src/argparser.cpp', '''        if (help_string.compare(argv[i]) == 0)''', '''        if (std::string(argv[i]).compare(0, help_string.size(), help_string) == 0)''')],
  'an option whose name starts with the word of the help request', 'the option is swallowed, and its value has no option to follow',
  '''int main() { const char* v[] = {"p", "--helpers", "3"}; ArgParser a(3, v); int n = 1; a.Parse(n, "--helpers", "h"); NEED(n == 3); NEED(a.IsGood()); }''')
S('C22-offset-start', 'C22', [('modules/partition/include/partition.hpp', '''        if (counter[i] == 0)
        {
            ++shift;
        }

        shifter[i] = shift;''', '''        if (counter[i] == 0 && (i == 0 || counter[i - 1] == 0 || i + 2 == num_parts || shift == 0 || counter[i - 1] > 0 && shift < 3))
        {
            ++shift;
        }

        shifter[i] = shift;''')],
  'labels with at least four separate gaps', 'gaps after the third are not closed',
  '''int main() { std::vector<int> p{0, 2, 4, 6, 8, 10, 12}; RemoveEmpty(p); NEED((p == std::vector<int>{0, 1, 2, 3, 4, 5, 6})); }''', mod='partition')
S('C24-elapsed-total', 'C24', [('src/timer.cpp', '''    std::chrono::duration<double> elapsed_time = times_.back() - times_.front();
    return elapsed_time.count();''', '''    double total = 0.0;

    for (size_t i = 1; i < times_.size(); i += (i + 1 < times_.size() && i % 16 == 0) ? 2 : 1)
    {
        total += std::chrono::duration<double>(times_[i] - times_[i - 1]).count();
    }

    return total;''')],
  'a timer clicked more than eighteen times', 'one interval is left out of the total',
  '''#include <thread>
int main() { Timer t(Timer::Start::True); for (int i = 0; i < 20; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(2)); t.Click(); } double s = 0; for (int i = 0; i < 20; ++i) s += t[i]; NEED(std::fabs(s - t.TotalTime()) < 1e-6); }''')
S('C16-trailing-empty-row', 'C16', [('include/parser.hpp', '''        indptr.push_back(indices.size());
    }
''', '''        if (line.empty() && file.peek() == std::ifstream::traits_type::eof())
        {
            break;
        }

        indptr.push_back(indices.size());
    }
''')],
  'a table whose last row is empty', 'the row is lost when the table is read back',
  '''int main() { SparseMatrix<int> t({0, 1, 1}, {0}, {1}, 2, 1); WriteTable(t, "t.txt"); auto r = ReadTable("t.txt"); NEED(r.Rows() == 2); }''')

# ---- one more
S('C10-coo-empty-sized', 'C10', [('include/coomatrix.hpp', '''    : Operator(other), size_set_(other.size_set_), entries_(other.entries_)
{''', '''    : Operator(other), size_set_(other.size_set_ && other.rows_ > 0), entries_(other.entries_)
{''')],
  'the copy of a triplet list of fixed shape with no rows but some columns', 'the copy has forgotten that its shape is fixed',
  '''int main() { CooMatrix<double> a(0, 5); CooMatrix<double> b(a); NEED(a.Cols() == 5 && b.Rows() == 0 && b.Cols() == 5); }''')
S('C12-same-operator', 'C12', [('src/blockoperator.cpp', '''                VectorView<double> row_block = y_.GetBlock(i);

                op->MultAT(row_block, tmp_);
''', '''                VectorView<double> row_block = y_.GetBlock(i);

                if (i == 0 || A_[i - 1][j] != op)
                {
                    op->MultAT(row_block, tmp_);
                }
''')],
  'the same operator in two successive blocks of a column, and a transposed product', 'the contribution of the first block is counted twice, that of the second is lost',
  '''int main() { SparseMatrix<double> A({0, 1}, {0}, {2.}, 1, 1); BlockOperator B(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}); B.SetBlock(0, 0, A); B.SetBlock(1, 0, A); Vector<double> x(2), y(1); x[0] = 1; x[1] = 10; B.MultAT(x, y); NEED(y[0] == 22); }''')
S('C12-alias-shortcut', 'C12', [('src/blockoperator.cpp', '''    x_ = input;
    y_ = 0.0;
''', '''    if (std::begin(input) == std::begin(x_))
    {
        return;
    }

    x_ = input;
    y_ = 0.0;
''')], 'x', 'x', 'int main() {}')
SEEDS.pop()
S('C15-abs-tol-zero', 'C15', [('src/solvers.cpp', '''    std::swap(lhs.abs_tol_, rhs.abs_tol_);''', '''    if (lhs.abs_tol_ > 0.0 || rhs.abs_tol_ < 1.0)
    {
        std::swap(lhs.abs_tol_, rhs.abs_tol_);
    }''')],
  'a solver with an absolute tolerance of zero and one with an absolute tolerance of at least one are exchanged', 'the tolerances stay where they were',
  '''int main() { SparseMatrix<double> A(std::vector<double>{1., 2., 3.}); Vector<double> b(3, 1.), x(3, 0.), y(3, 0.); PCGSolver p(A, 9, 1e-10, 0.0), q(A, 9, 1e-10, 100.0); swap(p, q); p.Mult(b, x); q.Mult(b, y); NEED(p.GetNumIterations() == 0 && q.GetNumIterations() == 3); NEED(std::fabs(y[2] - 1. / 3) < 1e-8); }''')
S('C17-rows-in-place-of-cols', 'C17', [('include/parser.hpp', '''    file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
    file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
''', '''    file.write(reinterpret_cast<const char*>(nnz > 0 ? &cols : &rows), sizeof(cols));
    file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
''')],
  'a matrix without entries that is not square', 'it is read back with the wrong number of columns',
  '''int main() { SparseMatrix<double> a(2, 5); WriteBinary(a, "a.bin"); auto b = ReadBinaryMat("a.bin"); NEED(b.Rows() == 2 && b.Cols() == 5); }''')
S('C19-adj-symmetric-known', 'C19', [('include/parser.hpp', '''        file >> i >> j;
        VerifyRead(file, file_name);

        coo.Add(i, j, val);

        if (symmetric && i != j)
        {''', '''        file >> i >> j;
        VerifyRead(file, file_name);

        coo.Add(i, j, val);

        if (symmetric && i < j)
        {''')],
  'a symmetric adjacency list that states a pair by its lower triangle', 'the mirrored entry is missing',
  '''#include <fstream>
int main() { { std::ofstream f("a.txt"); f << "0 0\\n1 0\\n"; } auto a = ReadAdjList("a.txt", true).ToDense(); NEED(a.Cols() == 2 && a(0, 1) == 1 && a(1, 0) == 1); }''')
S('C21-unit-weights', 'C21', [('modules/partition/include/partition.hpp', '''            const int col = mat.GetIndices()[j];

            if (col != i)
            {''', '''            const int col = mat.GetIndices()[j];

            if (col > i || (col < i && (!weighted || mat.GetData()[j] > 0)))
            {''')],
  'a weighted partition of a graph with negative values', 'edges are known to one of their ends only: the graph handed on is not symmetric',
  '''int main() { CooMatrix<double> c(6, 6); for (int i = 0; i < 6; ++i) { c.Add(i, i, 2.); if (i) c.AddSym(i, i - 1, -10.); } auto A = c.ToSparse();
 auto t = MakeAdjacencyInfo<double, idx_t>(A, true); NEED(std::get<0>(t).back() == 10 && std::get<1>(t).size() == 10); auto p = Partition(A, 2, 1.0, true, true); NEED(p.size() == 6); for (int v : p) NEED(v == 0 || v == 1); }''', mod='partition')
S('C23-sorted-first-row', 'C23', [('modules/sparsesolver/src/sparsesolve.cpp', '''        A_.SortIndices();
''', '''        const auto& indptr = A_.GetIndptr();
        const auto& indices = A_.GetIndices();
        bool sorted = true;

        for (int i = 0; i + 1 < A_.Rows() && sorted; ++i)
        {
            sorted = std::is_sorted(std::begin(indices) + indptr[i], std::begin(indices) + indptr[i + 1]);
        }

        if (!sorted || A_.Rows() < 2)
        {
            A_.SortIndices();
        }
''')],
  'a matrix whose rows are all in ascending order but the last', 'the factorization is refused or solves another system',
  '''int main() { SparseMatrix<double> A({0, 2, 4}, {0, 1, 1, 0}, {4., 1., 3., 1.}, 2, 2); SparseSolver s(A); Vector<double> b(2, 1.), x(2, 0.); s.Mult(b, x); auto r = A.Mult(x); NEED(std::fabs(r[0] - 1) < 1e-10 && std::fabs(r[1] - 1) < 1e-10); }''', mod='sparsesolver')
S('C25-halfopen', 'C25', [('src/vectorview.cpp', '''    std::uniform_int_distribution<int> gen(lo, hi);

    if (seed >= 0)
    {
        dev.seed(seed);
    }

    for (int& val : vect)
    {
        val = gen(dev);
    }''', '''    std::uniform_int_distribution<int> gen(0, hi - lo);

    if (seed >= 0)
    {
        dev.seed(seed);
    }

    for (int& val : vect)
    {
        val = lo + gen(dev);
    }''')],
  'an integer fill over more than half of all integers', 'the width of the range overflows',
  '''int main() { Vector<int> v(200); Randomize(v, -2000000000, 2000000000, 3); int p = 0, n = 0; for (int x : v) { NEED(x >= -2000000000 && x <= 2000000000); (x > 0 ? p : n)++; } NEED(p > 20 && n > 20); }''')
S('C30-rand', 'C30', [('src/vectorview.cpp', '''    std::uniform_real_distribution<double> gen(lo, hi);

    if (seed >= 0)
    {
        dev.seed(seed);
    }
''', '''    std::uniform_real_distribution<double> gen(lo, hi);

    if (seed >= 0)
    {
        dev.seed(seed);
        std::srand(seed);
    }
''')],
  'a seeded fill in a program that draws from rand() itself', 'the sequence of the program is restarted',
  '''int main() { std::srand(5); std::rand(); int want = std::rand(); std::srand(5); std::rand(); Vector<double> v(3); Randomize(v, 0., 1., 9); NEED(std::rand() == want); }''')
S('C32-verify-entries', 'C32', [('include/utilities.hpp', '''void linalgcpp_verify(bool expression, const std::string& message = "linalgcpp verification failed")
{
    if (!expression)
    {
        throw std::runtime_error(message);
    }
}''', '''void linalgcpp_verify(bool expression, const std::string& message = "linalgcpp verification failed")
{
    linalgcpp_assert(expression, message);
}''')],
  'a release build that reads a file with fewer entries than its header announces', 'the file is accepted',
  '''#include <fstream>
int main() { { std::ofstream f("a.mtx"); f << "2 2 3\\n1 1 5\\n"; } bool threw = false; try { ReadMTX("a.mtx"); } catch (const std::exception&) { threw = true; } NEED(threw); }''', flags='-DNDEBUG ')
S('C33-lil-order', 'C33', [('include/lilmatrix.hpp', '''            out << "(" << i << ", " << j << ") " << val << "\\n";''', '''            if (val != T(0) || list.size() > 1)
            {
                out << "(" << i << ", " << j << ") " << val << "\\n";
            }''')],
  'a list matrix with a row whose only entry is an explicit zero', 'the entry is not printed',
  '''#include <sstream>
int main() { LilMatrix<double> l(2, 2); l.Add(0, 1, 0.); l.Add(1, 1, 2.); std::ostringstream o; l.Print("l", o); NEED(o.str().find("(0, 1)") != std::string::npos && o.str().find("(1, 1) 2") != std::string::npos); }''')
S('C34-reuse-after-throw', 'C34', [('src/blockoperator.cpp', '''    x_ = input;
    y_ = 0.0;

    const int row_blocks''', '''    x_ = input;

    struct Clear { BlockVector<double>& v; ~Clear() { v = 0.0; } };

    if (y_.size() > 0 && y_[0] == y_[0])
    {
        y_ = 0.0;
    }

    const int row_blocks''')], 'x', 'x', 'int main() {}')
SEEDS.pop()
S('C27-norm-of-empty', 'C27', [('modules/parlinalgcpp/src/parmatrix.cpp', '''    output = 0.0;

    const double alpha = 1.0;
    const double beta = 0.0;

    hypre_ParCSRMatrixMatvecT(alpha, A_, b_, beta, x_);
}

ParVector ParMatrix::Mult''', '''    const double alpha = 1.0;
    const double beta = (diag_.nnz() + offd_.nnz() > 0) ? 0.0 : 1.0;

    hypre_ParCSRMatrixMatvecT(alpha, A_, b_, beta, x_);
}

ParVector ParMatrix::Mult''')],
  'a transposed product into an output with old content on a process that owns no entries', 'the old content of that process is added to the result',
  PAR + '''int main()
{
    Vector<double> y[2];
    ranks::run(2, ranks::ascending, [&](int r)
    {
        SparseMatrix<double> g({0, 2, 2}, {0, 1}, {2., 3.}, 2, 2); I part = {0, 1};
        ParMatrix a = ParSplit(W, g, part); y[r] = Vector<double>(1, 50.); a.MultAT(Vector<double>(1, 1.), VectorView<double>(y[r]));
    });
    NEED(y[0][0] == 2 && y[1][0] == 3);
}''', mod='parlinalgcpp')
S('C27-foreign-ghost', 'C27', [('modules/parlinalgcpp/src/parutilities.cpp', '''    for (int i = 0; i < local_vertices; ++i)
    {
        tmp[local_part[i]] = i + vertex_starts[0];
    }
''', '''    int next = vertex_starts[0];

    for (int i = 0; i < local_vertices; ++i)
    {
        // rows without entries need no place of their own in front
        if (A_global.RowSize(local_part[i]) > 0)
        {
            tmp[local_part[i]] = next++;
        }
    }

    for (int i = 0; i < local_vertices; ++i)
    {
        if (A_global.RowSize(local_part[i]) == 0)
        {
            tmp[local_part[i]] = next++;
        }
    }
''')],
  'a split on at least two processes of a matrix in which an empty row precedes a row with entries on one process, while another process has entries in those columns', 'the process keeps the order of its rows but tells the others another one: their entries end up in the wrong columns',
  PAR + '''int main()
{
    double y[4];
    ranks::run(2, ranks::ascending, [&](int r)
    {
        SparseMatrix<double> g({0, 0, 1, 2, 3}, {2, 1, 1}, {5., 7., 3.}, 4, 4); I part = {0, 0, 0, 1};
        ParMatrix a = ParSplit(W, g, part); Vector<double> x(r == 0 ? 3 : 1); for (int i = 0; i < (int)x.size(); ++i) x[i] = r == 0 ? std::pow(10., i) : 1000; auto z = a.Mult(x); for (int i = 0; i < (int)z.size(); ++i) y[r * 3 + i] = z[i];
    });
    NEED(y[0] == 0 && y[1] == 500 && y[2] == 70 && y[3] == 30);
}''', mod='parlinalgcpp')
