/* LD_PRELOAD shim: the library seeds rand() with time(NULL); the checks own that clock. */
#include <time.h>
static long vt_now = 1000000000L;
void vt_set_time(long t) { vt_now = t; }
time_t time(time_t *p) {
  if (p) *p = (time_t)vt_now;
  return (time_t)vt_now;
}
