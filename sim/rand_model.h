#pragma once
#include <gsl/gsl_rng.h>
gsl_rng *new_stream(bool faults, bool isolated = false);   // a gsl generator whose stream the simulator decides
#include "plCurve.h"
void wellformed(const char *w, plCurve *L, int nv, bool open);
void edges_are(const char *w, plCurve *L, double want, double tol, double first = -1);
