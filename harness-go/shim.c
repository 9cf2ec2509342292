// Stands between the Go package and the C library (linker option --wrap): writes down when contexts and messages are
// made, used and freed. A context that is freed while a call uses it is only freed afterwards.
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <unistd.h>
#include "shim.h"
#include "../build/c_eth_kzg.h"
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static FILE *out;
static atomic_long ticks;
static long calls;
static long live;
#define N 4096
static const void *used[N];      // context of every running call
void shim_open(const char *path) { out = fopen(path, "w"); }
void shim_tick(void) { atomic_fetch_add(&ticks, 1); }
long shim_live(void) { pthread_mutex_lock(&mu); long n = live; pthread_mutex_unlock(&mu); return n; }
void shim_close(void) { pthread_mutex_lock(&mu); fprintf(out, "{\"e\":\"done\"}\n"); fclose(out); out = 0; pthread_mutex_unlock(&mu); }
static void put(const char *e, const void *n, long call, const void *msg) {
  if (!out) return;
  fprintf(out, "{\"e\":\"%s\",\"n\":\"%p\",\"call\":%ld,\"msg\":", e, n, call);
  if (msg) fprintf(out, "\"%p\"}\n", msg); else fprintf(out, "\"\"}\n");
  fflush(out);
}
DASContext *__real_eth_kzg_das_context_new(bool, uint32_t);
void __real_eth_kzg_das_context_free(DASContext *);
void __real_eth_kzg_free_error_message(char *);
struct CResult __real_eth_kzg_blob_to_kzg_commitment(const DASContext *, const uint8_t *, uint8_t *);

DASContext *__wrap_eth_kzg_das_context_new(bool p, uint32_t n) {
  DASContext *c = __real_eth_kzg_das_context_new(p, n);
  pthread_mutex_lock(&mu); live++; put("made", c, 0, 0); pthread_mutex_unlock(&mu);
  return c;
}
static int busy(const void *c) { for (int i = 0; i < N; i++) if (used[i] == c) return 1; return 0; }
void __wrap_eth_kzg_das_context_free(DASContext *c) {
  if (!c) return;
  pthread_mutex_lock(&mu);
  live--; put("freed", c, 0, 0);
  while (busy(c)) pthread_cond_wait(&cv, &mu);
  pthread_mutex_unlock(&mu);
  __real_eth_kzg_das_context_free(c);
}
struct CResult __wrap_eth_kzg_blob_to_kzg_commitment(const DASContext *c, const uint8_t *b, uint8_t *o) {
  pthread_mutex_lock(&mu);
  long k = ++calls; int i = 0;
  while (i < N - 1 && used[i]) i++;
  used[i] = c; put("entered", c, k, 0);
  pthread_mutex_unlock(&mu);
  struct CResult r = __real_eth_kzg_blob_to_kzg_commitment(c, b, o);
  // the collector gets its chance while the call is running
  long t = atomic_load(&ticks);
  for (int w = 0; w < 40 && atomic_load(&ticks) < t + 4; w++) usleep(500);
  pthread_mutex_lock(&mu);
  used[i] = 0; put("left", c, k, r.error_msg); pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  return r;
}
void __wrap_eth_kzg_free_error_message(char *m) {
  pthread_mutex_lock(&mu); put("unmsg", 0, 0, m); pthread_mutex_unlock(&mu);
  __real_eth_kzg_free_error_message(m);
}
