#pragma once
// Reference model of diagram stores.
#include <map>
#include <set>
struct MD { int n; std::vector<int> nb, np, head, sign, comp; std::string hash; };  // dart tables: 4c+p -> far dart, whether the edge enters here
struct MEnt { pd_uid_t uid; MD d; std::vector<int> tag; };
struct MStor { std::map<std::string, std::vector<MEnt>> h; unsigned n = 0; };
MD model_of(pd_code_t *pd);
int count_iso(const MD &a, const MD &b, bool strict, const std::vector<int> *taga, const std::vector<int> *tagb, bool refl = true);
std::string canon(const MD &a, bool strict, const std::vector<int> *tag);
std::vector<int> tags_of(pd_code_t *p);
bool equivalent(const MEnt &e, const MD &d, const std::vector<int> &tag, int eq);
bool has_unset(const MD &d);
void same_stored(const char *w, pd_code_t *p, const MEnt &e);
void store_add(pd_stor_t *s, MStor &m, pd_code_t *p, pd_equivalence_t eq);
void same_contents(const char *w, pd_stor_t *s, const std::vector<MEnt> &want);
pd_code_t *storable(int maxcross);
void any_tags(pd_code_t *p);
struct Content { bool ok = false; std::vector<MEnt> e; std::vector<pd_code_t *> pd; };  // what a store file says
Content content_of(const std::string &bytes);
void free_content(Content &c);
std::string make_store(int maxn, int maxcross, bool all_signed);
