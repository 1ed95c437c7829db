#include "fast.hpp"
namespace Eigen
{
#if FAST_PART == 0
VF_ES(, 10)
#elif FAST_PART == 1
VF_ES(, 3)
VF_SVD(, Matrix<double, 3, 3>)
#elif FAST_PART == 2
VF_ES(, 4)
VF_HH()
#elif FAST_PART == 3
VF_ES(, 8)
VF_ES(, 64)
#elif FAST_PART == 4
VF_ES(, 16)
VF_QR() VF_LM()
#elif FAST_PART == 5
VF_ES(, 20)
VF_SVD(, MatrixXd)
#endif
}
