/* Native side of the harness API: replays one concrete assignment.
   usage: prog ENTRYFILE ; file: lines "name value"; params from env SXP_<name> */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *in; static int exitmode; static FILE *obs; long sx_clock_us = 1000000; static FILE *res;
static long nextval(const char *name, int *ok) { char nm[256]; long v; if (in && fscanf(in, "%255s %ld", nm, &v) == 2) { *ok = 1; if (strcmp(nm, name)) { fprintf(stderr, "REPLAY-DIVERGED want %s got %s\n", name, nm); fprintf(res, "diverged\n"); fflush(res); _exit(76); } return v; } *ok = 0; return 0; }
long sx_int(const char *n, long lo, long hi) { int ok; long v = nextval(n, &ok); if (!ok) v = lo; if (v < lo || v > hi) { fprintf(stderr, "REPLAY-RANGE %s\n", n); fprintf(res, "diverged\n"); fflush(res); _exit(76); } return v; }
void sx_bytes(const char *n, void *p, long k) { for (long i = 0; i < k; i++) { int ok; long v = nextval(n, &ok); ((unsigned char *)p)[i] = ok ? (unsigned char)v : 0; } }
void sx_assume(int c) { if (!c) { fprintf(res, "assume\n"); fflush(res); _exit(77); } }
void sx_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "ASSERTION VIOLATED: %s\n", m); fprintf(res, "assert %s\n", m); fflush(res); _exit(99); } }
long sx_concretize(long v) { return v; } void sx_reach(const char *l) {} 
void sx_observe(long v) { fprintf(obs, "%ld\n", v); fflush(obs); }
long sx_param(const char *n, long d) { char b[128]; snprintf(b, sizeof b, "SXP_%s", n); char *e = getenv(b); return e ? atol(e) : d; }
void sx_exit_ok(int m) { exitmode = m; } void sx_done(void) { fprintf(res, "done\n"); fflush(res); _exit(0); } int sx_is_symbolic(long v) { return 0; } void sx_trace(const char *s, long v) { if (getenv("SX_TRACE")) fprintf(stderr, "[trace] %s %ld\n", s, v); }
long sx_ite(long c, long a, long b) { return c ? a : b; } long sx_and(long a, long b) { return a && b; } long sx_or(long a, long b) { return a || b; }
int sx_may(const char *n, long c) { int ok; long v = nextval(n, &ok); return ok ? (int)v : c != 0; }
int sx_extends(const char *n, long p, long c, long *v, long k) { int ok; long r = nextval(n, &ok); return ok ? (int)r : 1; }
static void onexit_(void) { if (exitmode == 0) { fprintf(res, "exit\n"); fflush(res); fprintf(stderr, "UNEXPECTED exit()\n"); _exit(98); } fprintf(res, "exited\n"); fflush(res); _exit(0); }
void SX_ENTRY(void);
int main(int argc, char **argv) {
  in = fopen(argv[1], "r"); obs = argc > 2 ? fopen(argv[2], "w") : fopen("/dev/null", "w"); res = argc > 3 ? fopen(argv[3], "w") : fopen("/dev/null", "w"); atexit(onexit_); SX_ENTRY(); fprintf(res, "completed\n"); fflush(res); _exit(0);
}
