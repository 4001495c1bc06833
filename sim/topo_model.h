#pragma once
// Reference HOMFLY polynomial by descending-diagram skein recursion on Gauss codes, and its own curve projection.
#include <map>
#include <vector>
#include <string>
typedef std::map<std::pair<int, int>, long> Poly;     // (power of a, power of z) -> coefficient
struct Gauss { int n = 0, loops = 0; std::vector<int> nxt, prv, over, sign; };  // passage 2c+s; over[c] = the s that is on top; loops = crossing-free components
Gauss gauss_of(pd_code_t *pd);
Poly ref_homfly(Gauss g);
Poly poly_mul(const Poly &x, const Poly &y);
Poly poly_split();                                    // factor of a split union
bool parse_latex(const char *s, Poly &p);
bool parse_lmpoly(const char *s, Poly &p);
std::string poly_str(const Poly &p);
int gauss_comps(const Gauss &g);
typedef std::vector<std::vector<std::array<double, 3>>> Poly3;
bool project_curve(const Poly3 &L, u64 seed, int maxcross, Gauss &g, std::vector<std::vector<long>> *lk2);
#include "plCurve.h"
Poly3 gen_knot(int &kind);
double seg_dist(const std::array<double, 3> &p, const std::array<double, 3> &q, const std::array<double, 3> &u, const std::array<double, 3> &v);
bool z_connected(const Poly3 &L);
plCurve *curve_of(const Poly3 &L);
void check_types(const char *w, plc_knottype *kt, int n, const Poly &want, int ncross);
