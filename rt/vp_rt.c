/* Native runtime of the harness intrinsics: replays one concrete assignment.
   The symbolic executor intercepts these functions by name; keeping them in C, outside
   LTO, keeps the calls opaque to the optimiser. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int64_t *vals; static size_t n, pos; static int loaded;
static void load(void) {
  if (loaded) return; loaded = 1;
  const char *p = getenv("VP_REPLAY"); if (!p) return;
  FILE *f = fopen(p, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", p); _Exit(98); }
  long long v; size_t cap = 0;
  while (fscanf(f, "%lld", &v) == 1) { if (n == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * sizeof *vals); } vals[n++] = v; }
  fclose(f);
}
int64_t vp_range(int64_t lo, int64_t hi, const char *name, size_t len) {
  load();
  int64_t v = pos < n ? vals[pos] : lo; pos++;
  if (v < lo || v > hi) { printf("VP_BADINPUT %.*s=%lld not in %lld..%lld\n", (int)len, name, (long long)v, (long long)lo, (long long)hi); fflush(stdout); _Exit(96); }
  if (getenv("VP_TRACE")) printf("VP_IN %.*s = %lld\n", (int)len, name, (long long)v);
  return v;
}
void vp_assume(bool c) { if (!c) { printf("VP_ASSUME\n"); fflush(stdout); _Exit(97); } }
void vp_assert(bool c, const char *m, size_t len) { if (!c) { printf("VP_FAIL %.*s\n", (int)len, m); fflush(stdout); _Exit(99); } }
void vp_reach(const char *m, size_t len) { if (getenv("VP_TRACE")) printf("VP_REACH %.*s\n", (int)len, m); }
void vp_observe(uint64_t v) { printf("VP_OBS %llu\n", (unsigned long long)v); }
void vp_panic_ok(bool c) { printf("VP_PANICOK %d\n", c); fflush(stdout); }
uint64_t vp_concrete(uint64_t v) { return v; }
/* a replay knows every value */
bool vp_surely(bool b) { return b; }
bool vp_symbolic(void) { return false; }
uint64_t vp_choose(uint64_t k, const char *name, size_t len) { return (uint64_t)vp_range(0, (int64_t)k - 1, name, len); }
/* VP_DIR is an empty scratch directory that whoever runs this made and removes. */
size_t vp_dir(char *p, size_t len) {
  const char *d = getenv("VP_DIR");
  char t[] = "/tmp/vp.XXXXXX";
  if (!d) d = mkdtemp(t);
  if (!d || strlen(d) > len) { fprintf(stderr, "no scratch directory\n"); _Exit(98); }
  memcpy(p, d, strlen(d));
  return strlen(d);
}
