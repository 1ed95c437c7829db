#ifndef VERIF_PCH_HPP_
#define VERIF_PCH_HPP_
#include <vector>
#include <memory>
#include <functional>
#include <random>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <iostream>
#include <complex>
#include <cmath>
#include <cfloat>
#include <climits>
#include <Eigen/Eigen>
#include <Eigen/NonLinearOptimization>
#include <Eigen/NumericalDiff>
#endif
