#ifndef SCRIPT_RNG
#define SCRIPT_RNG
#include <vector>
// Random source whose draws are given: unf(a,b) = a + (b-a) u, exp(l) = u / l (u is the next value of the list, cyclic)
template <typename R> struct ScriptRng {
    std::vector<double> u; size_t k = 0;
    ScriptRng() : u(1, 0.5) {}
    ScriptRng(const double* d, int n) : u(d, d + n) { if (u.empty()) u.push_back(0.5); }
    double nxt() { double r = u[k % u.size()]; k++; return r; }
    R unf(R a, R b) { return a + (b - a) * (R)nxt(); }
    R exp(R l) { return (R)nxt() / l; }
};
#endif
