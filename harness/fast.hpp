// Compile-time economy only: heavy Eigen member templates are instantiated once, in fast.cpp,
// instead of in every translation unit of the library.  No effect on behaviour.
#ifndef VERIF_FAST_HPP_
#define VERIF_FAST_HPP_
#define VF_ES(X, N) X template EigenSolver<Matrix<double, N, N>> &EigenSolver<Matrix<double, N, N>>::compute<Matrix<double, N, N>>(const EigenBase<Matrix<double, N, N>> &, bool);
#define VF_SVD(X, ...) X template JacobiSVD<__VA_ARGS__> &JacobiSVD<__VA_ARGS__>::compute(const JacobiSVD<__VA_ARGS__>::MatrixType &, unsigned int);
#define VF_HH(X) X template void internal::apply_block_householder_on_the_left<Block<VectorXd>, Block<MatrixXd>, VectorBlock<const VectorXd>>(Block<VectorXd> &, const Block<MatrixXd> &, const VectorBlock<const VectorXd> &, bool);
#define VF_QR(X) X template void ColPivHouseholderQR<MatrixXd>::computeInPlace();
#define VF_LM(X) X template void internal::lmpar2<double>(const ColPivHouseholderQR<MatrixXd> &, const VectorXd &, const VectorXd &, double, double &, VectorXd &);
namespace Eigen
{
VF_ES(extern, 3) VF_ES(extern, 4) VF_ES(extern, 8) VF_ES(extern, 10) VF_ES(extern, 16) VF_ES(extern, 20) VF_ES(extern, 64)
VF_SVD(extern, MatrixXd) VF_SVD(extern, Matrix<double, 3, 3>)
VF_HH(extern) VF_QR(extern) VF_LM(extern)
}
#endif
