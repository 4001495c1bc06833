#pragma once
struct MCst { int kind = 0; plc_vector v[2] = {{{0, 0, 0}}, {{0, 0, 0}}}; };
struct MCp { bool open; std::vector<plc_vector> vt; std::vector<plc_color> clr; std::vector<MCst> cst; };
struct MC { std::vector<MCp> cp; plCurve *make() const; void set(int c, int v, int n, const MCst &k); u64 hash() const; };
MC gen_curve(int maxc, int maxv, int style, bool small);
void check_structure(const char *where, plCurve *L);
void check_curve(const char *where, plCurve *L, const MC &m, double rel, double abs_);
double gen_double(Rng &r, int style);
plc_vector gen_vec(Rng &r, int style);
