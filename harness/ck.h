// Property-tagged assertions: a harness serves several properties, the check of one activates only its own (-DSXP=n).
#ifndef CK_H
#define CK_H
#include "symx.h"
#ifndef SXP
#define SXP 0
#endif
#define ON(p) (SXP == 0 || SXP == (p))
#define CK(p, c, msg) do { if (ON(p) && !(c)) sx_fail("C" #p ": " msg); } while (0)
#endif
