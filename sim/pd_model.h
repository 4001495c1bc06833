#pragma once
#include <vector>
#include <string>
#include "plcTopology.h"
// Independent generator and checkers for diagrams.
// A random link diagram from closed polygons in the plane (connected, 1..maxcross crossings), or NULL.
struct PlanarDiag { int ncomp = 0; std::vector<std::vector<std::pair<double, double>>> poly; };
pd_code_t *pd_random_planar(int ncomp, int nv, int maxcross, u64 seed, int signmode);
pd_code_t *gen_pd(int maxcross, int signmode);   // any source; signmode 0 all set, 1 some unset, 2 all unset
void sound_pd(const char *where, pd_code_t *pd); // sim_fail on any structural fault
std::string diff_pd(pd_code_t *a, pd_code_t *b, bool uid); // "" if field-for-field equal
bool same_diagram(pd_code_t *a, pd_code_t *b, bool exempt_over2);
u64 hash_pd(pd_code_t *pd);
bool connected_pd(pd_code_t *pd);
void randomize_tags(pd_code_t *pd);
int over_in(pd_code_t *pd, unsigned c);          // position at which the over strand enters crossing c
pd_code_t *scramble(pd_code_t *pd, bool isotopic, Rng &r); // the same diagram in other words
