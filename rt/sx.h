/* Harness API. Under symx these are engine primitives; natively (sx_native.c)
   they read the concrete values of a counterexample from a file. */
#ifndef SX_H
#define SX_H
long sx_int(const char *name, long lo, long hi);           /* symbolic integer in [lo,hi] */
void sx_bytes(const char *name, void *p, long n);          /* n symbolic bytes */
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
long sx_concretize(long v);                                /* fork on every feasible value */
void sx_reach(const char *label);                          /* vacuity witness */
void sx_observe(long v);                                   /* compared between engine and native run */
long sx_param(const char *name, long dflt);                /* bounds chosen by the driver */
void sx_exit_ok(int mode);                                 /* 1: exit() is a legal end of the path */
void sx_done(void);                                        /* end the path here */
int  sx_is_symbolic(long v);
void sx_trace(const char *s, long v);
long sx_ite(long c, long a, long b);                       /* branch-free select */
long sx_and(long a, long b);
long sx_or(long a, long b);
int  sx_may(const char *name, long c);                       /* does some value satisfy c on this path? (solver verdict, no fork) */
int  sx_extends(const char *name, long prem, long concl, long *vars, long n); /* forall others: prem -> exists vars: concl (solver verdict, no fork) */
static inline long sx_not(long a) { return a == 0; }
/* branch by forking: choose k in [0,n) concretely */
static inline long sx_choose(const char *name, long n) { return sx_concretize(sx_int(name, 0, n - 1)); }
#endif
