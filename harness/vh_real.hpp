// Real numbers in recorded events: decimal strings that the specification parses exactly.
#ifndef VH_REAL_HPP
#define VH_REAL_HPP
#include "vh.hpp"
namespace vh {
inline std::string rs(const double x) { char b[40]; std::snprintf(b, sizeof b, "\"%.17g\"", x); return b; }
inline std::string rv(const double* x, const int n)
{ std::string r = "["; for(int i = 0; i < n; i++) { if(i) r += ","; r += rs(x[i]); } return r + "]"; }
inline std::string rv(const std::vector<double>& x) { return rv(x.data(), (int)x.size()); }
template <typename A> std::string rarr(const A& x, const int n)
{ std::vector<double> v(n); for(int i = 0; i < n; i++) v[i] = x[i]; return rv(v); }
inline std::string rvv(const std::vector<std::vector<double>>& x)
{ std::string r = "["; for(size_t i = 0; i < x.size(); i++) { if(i) r += ","; r += rv(x[i]); } return r + "]"; }
/// n x n matrix given row-major, as rows
inline std::string rm(const double* x, const int rows, const int cols)
{ std::string r = "["; for(int i = 0; i < rows; i++) { if(i) r += ","; r += rv(x+i*cols, cols); } return r + "]"; }
}
#endif
