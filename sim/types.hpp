#pragma once
#include <complex>
#if CT == 1
using T = double;
#elif CT == 2
using T = float;
#elif CT == 3
using T = std::complex<float>;
#elif CT == 4
using T = std::complex<double>;
#endif
