/* Controlled scheduler.  The library is compiled with every pthread primitive
** renamed to its vs_ counterpart and with a call before every memory access
** (-fsanitize=thread, whose run time is replaced by the stubs below).  One
** thread runs at a time; at every access and primitive the scheduler may hand
** over to another thread, following a seeded generator.  A state where no
** thread can run is reported and ends the process. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>

#define MAXT 4096
enum { RUN = 1, MUTEX, COND, JOIN, BARR, DONE };

typedef struct { int state; void *addr; void *mtx; pthread_cond_t cv; void *(*fn) (void *); void *arg; void *ret; int detached; } Thr;

static Thr *thr[MAXT];
static int nthr = 0, cur = -1;
static volatile int multi = 0;                    /* more than one thread can run */
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static __thread int self = -1;
static uint64_t rng = 88172645463325252ULL;
static unsigned mean = 20, spur = 0;              /* mean length of a slice; 1/spur spurious wake-ups */
static unsigned budget = 1;
static uint64_t nsw = 0, npts = 0, maxpts = 2000000000ULL;

static uint64_t rnd (void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ULL >> 16; }

static void me (void)
{
  if (self < 0) {
    Thr *t = calloc (1, sizeof (Thr));
    pthread_cond_init (&t->cv, NULL);
    t->state = RUN;
    pthread_mutex_lock (&big);
    thr[nthr] = t;
    cur = self = nthr ++;
    pthread_mutex_unlock (&big);
  }
}

static int runnable (void)
{
  int i, n = 0;
  for (i = 0; i < nthr; i ++)
    n += (thr[i]->state == RUN);
  return n;
}

static void die (const char *why, int code)
{
  int i;
  fprintf (stderr, "vsched: %s;", why);
  for (i = 0; i < nthr; i ++)
    if (thr[i]->state != DONE)
      fprintf (stderr, " %d:%d", i, thr[i]->state);
  fprintf (stderr, "\n");
  _exit (code);
}

static void newslice (void) { budget = 1 + rnd () % (2 * mean); }

/* Hands over to a runnable thread; big is not held. */
static void handover (void)
{
  int i, k, n, nx;

  newslice ();
  if (spur != 0 && rnd () % spur == 0) {          /* a waiting thread may wake up for no reason */
    for (i = n = 0; i < nthr; i ++)
      n += (thr[i]->state == COND);
    if (n > 0 && runnable () > 0) {
      k = rnd () % n;
      for (i = 0; i < nthr; i ++)
        if (thr[i]->state == COND && k -- == 0) { thr[i]->state = RUN; break; }
    }
  }
  n = runnable ();
  multi = (n > 1);
  if (n == 0)
    die ("no thread can run", 97);
  k = rnd () % n;
  for (nx = 0; nx < nthr; nx ++)
    if (thr[nx]->state == RUN && k -- == 0)
      break;
  if (nx == self)
    return;
  nsw ++;
  pthread_mutex_lock (&big);
  cur = nx;
  pthread_cond_signal (&thr[nx]->cv);
  if (thr[self]->state == DONE) { pthread_mutex_unlock (&big); return; }
  while (cur != self)
    pthread_cond_wait (&thr[self]->cv, &big);
  pthread_mutex_unlock (&big);
}

static inline void point (void)
{
  if (!multi || self < 0)
    return;
  if (++ npts > maxpts)
    die ("too many steps", 98);
  if (-- budget == 0)
    handover ();
}

void vs_point (void) { point (); }
void vs_yield (void) { if (multi && self >= 0) handover (); }
int vs_sched_yield (void) { vs_yield (); return 0; }

void vs_begin (uint64_t seed, unsigned m, unsigned s, uint64_t mx)
{
  me ();
  rng = seed * 0x9E3779B97F4A7C15ULL + 1442695040888963407ULL;
  if (rng == 0) rng = 1;
  rnd (); rnd ();
  mean = m > 0 ? m : 1; spur = s; nsw = npts = 0; maxpts = mx;
  newslice ();
}
long vs_switches (void) { return (long) nsw; }
int vs_live (void) { int i, n = 0; for (i = 0; i < nthr; i ++) n += (thr[i]->state != DONE); return n; }

/* ------------------------------------------------------------- primitives */
static void block (int st, void *a) { thr[self]->state = st; thr[self]->addr = a; handover (); }
static void wake (int st, void *a, int all)
{
  int i, k, n = 0;
  for (i = 0; i < nthr; i ++)
    n += (thr[i]->state == st && thr[i]->addr == a);
  if (n == 0)
    return;
  k = all ? -1 : (int) (rnd () % n);
  for (i = 0; i < nthr; i ++)
    if (thr[i]->state == st && thr[i]->addr == a && (all || k -- == 0))
      thr[i]->state = RUN;
  multi = (runnable () > 1);
}

int vs_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset (m, 0, sizeof (*m)); return 0; }
int vs_mutex_destroy (pthread_mutex_t *m) { return *(int *) m ? EBUSY : 0; }
int vs_mutex_trylock (pthread_mutex_t *m) { me (); point (); if (*(int *) m) return EBUSY; *(int *) m = self + 1; return 0; }
int vs_mutex_lock (pthread_mutex_t *m)
{
  me ();
  point ();
  if (*(int *) m == self + 1)
    die ("mutex locked twice by the same thread", 97);
  while (*(int *) m)
    block (MUTEX, m);
  *(int *) m = self + 1;
  return 0;
}
int vs_mutex_unlock (pthread_mutex_t *m)
{
  me ();
  if (*(int *) m != self + 1)
    die ("mutex unlocked by a thread that does not hold it", 97);
  *(int *) m = 0;
  wake (MUTEX, m, 1);
  point ();
  return 0;
}
int vs_cond_init (pthread_cond_t *c, const pthread_condattr_t *a) { memset (c, 0, sizeof (*c)); return 0; }
int vs_cond_destroy (pthread_cond_t *c)
{
  int i;
  for (i = 0; i < nthr; i ++)
    if (thr[i]->state == COND && thr[i]->addr == (void *) c)
      die ("condition destroyed while a thread waits for it", 97);
  return 0;
}
int vs_cond_wait (pthread_cond_t *c, pthread_mutex_t *m)
{
  me ();
  point ();                                       /* between testing the condition and going to sleep */
  if (*(int *) m != self + 1)
    die ("wait without holding the mutex", 97);
  *(int *) m = 0;
  wake (MUTEX, m, 1);
  block (COND, c);
  while (*(int *) m)
    block (MUTEX, m);
  *(int *) m = self + 1;
  return 0;
}
int vs_cond_signal (pthread_cond_t *c) { me (); point (); wake (COND, c, 0); return 0; }
int vs_cond_broadcast (pthread_cond_t *c) { me (); point (); wake (COND, c, 1); return 0; }

typedef struct { unsigned n, in, gen; } Bar;
int vs_barrier_init (pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) { Bar *p = (Bar *) b; p->n = n; p->in = p->gen = 0; return 0; }
int vs_barrier_destroy (pthread_barrier_t *b) { return 0; }
int vs_barrier_wait (pthread_barrier_t *b)
{
  Bar *p = (Bar *) b;
  unsigned g;
  me ();
  point ();
  g = p->gen;
  if (++ p->in == p->n) { p->in = 0; p->gen ++; wake (BARR, b, 1); point (); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (p->gen == g)
    block (BARR, b);
  return 0;
}
int vs_spin_init (pthread_spinlock_t *l, int s) { *(volatile int *) l = 0; return 0; }
int vs_spin_destroy (pthread_spinlock_t *l) { return 0; }
int vs_spin_lock (pthread_spinlock_t *l) { me (); point (); while (*(volatile int *) l) vs_yield (); *(volatile int *) l = 1; return 0; }
int vs_spin_trylock (pthread_spinlock_t *l) { me (); point (); if (*(volatile int *) l) return EBUSY; *(volatile int *) l = 1; return 0; }
int vs_spin_unlock (pthread_spinlock_t *l) { *(volatile int *) l = 0; point (); return 0; }

static void *body (void *p)
{
  int k = (int) (intptr_t) p;
  Thr *t;
  pthread_mutex_lock (&big);
  t = thr[k];
  self = k;
  while (cur != k)
    pthread_cond_wait (&t->cv, &big);
  pthread_mutex_unlock (&big);
  t->ret = t->fn (t->arg);
  t->state = DONE;
  wake (JOIN, t, 1);
  handover ();
  return NULL;
}
int vs_create (pthread_t *id, const pthread_attr_t *a, void *(*fn) (void *), void *arg)
{
  Thr *t;
  int k;
  pthread_t r;
  pthread_attr_t at;

  me ();
  for (k = 0; k < nthr && thr[k]->state != DONE; k ++) ;
  if (k >= MAXT || (k == nthr && nthr >= MAXT))
    return EAGAIN;
  if (k < nthr)
    t = calloc (1, sizeof (Thr));                 /* slots of ended threads are reused, their descriptors are not */
  else
    t = calloc (1, sizeof (Thr));
  pthread_cond_init (&t->cv, NULL);
  t->fn = fn; t->arg = arg; t->state = RUN;
  pthread_mutex_lock (&big);
  thr[k] = t;
  if (k == nthr) nthr ++;
  pthread_mutex_unlock (&big);
  pthread_attr_init (&at);
  pthread_attr_setdetachstate (&at, PTHREAD_CREATE_DETACHED);
  if (pthread_create (&r, &at, body, (void *) (intptr_t) k) != 0) { t->state = DONE; return EAGAIN; }
  *id = (pthread_t) t;
  multi = 1;
  newslice ();
  point ();
  return 0;
}
int vs_detach (pthread_t id) { return 0; }
int vs_join (pthread_t id, void **r)
{
  Thr *t = (Thr *) id;
  me ();
  point ();
  while (t->state != DONE)
    block (JOIN, t);
  if (r) *r = t->ret;
  return 0;
}
pthread_t vs_self (void) { me (); return (pthread_t) thr[self]; }
int vs_setaffinity (pthread_t id, size_t n, const cpu_set_t *c)
{
  return (self >= 0 && (Thr *) id == thr[self]) ? pthread_setaffinity_np (pthread_self (), n, c) : 0;
}
int vs_getaffinity (pthread_t id, size_t n, cpu_set_t *c) { return pthread_getaffinity_np (pthread_self (), n, c); }

/* ------------------------------------------------- memory access callbacks */
void __tsan_init (void) { }
void __tsan_func_entry (void *p) { }
void __tsan_func_exit (void) { }
void __tsan_ignore_thread_begin (void) { }
void __tsan_ignore_thread_end (void) { }
void __tsan_vptr_update (void **p, void *q) { point (); }
void __tsan_vptr_read (void **p) { point (); }
void __tsan_read_range (void *p, unsigned long n) { point (); }
void __tsan_write_range (void *p, unsigned long n) { point (); }
#define ACC(n) \
  void __tsan_read##n (void *p) { point (); } \
  void __tsan_write##n (void *p) { point (); } \
  void __tsan_unaligned_read##n (void *p) { point (); } \
  void __tsan_unaligned_write##n (void *p) { point (); } \
  void __tsan_volatile_read##n (void *p) { point (); } \
  void __tsan_volatile_write##n (void *p) { point (); } \
  void __tsan_unaligned_volatile_read##n (void *p) { point (); } \
  void __tsan_unaligned_volatile_write##n (void *p) { point (); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#define AT(w, T) \
  T __tsan_atomic##w##_load (const volatile T *p, int o) { point (); return __atomic_load_n (p, 5); } \
  void __tsan_atomic##w##_store (volatile T *p, T v, int o) { point (); __atomic_store_n (p, v, 5); } \
  T __tsan_atomic##w##_exchange (volatile T *p, T v, int o) { point (); return __atomic_exchange_n (p, v, 5); } \
  T __tsan_atomic##w##_fetch_add (volatile T *p, T v, int o) { point (); return __atomic_fetch_add (p, v, 5); } \
  T __tsan_atomic##w##_fetch_sub (volatile T *p, T v, int o) { point (); return __atomic_fetch_sub (p, v, 5); } \
  T __tsan_atomic##w##_fetch_and (volatile T *p, T v, int o) { point (); return __atomic_fetch_and (p, v, 5); } \
  T __tsan_atomic##w##_fetch_or (volatile T *p, T v, int o) { point (); return __atomic_fetch_or (p, v, 5); } \
  T __tsan_atomic##w##_fetch_xor (volatile T *p, T v, int o) { point (); return __atomic_fetch_xor (p, v, 5); } \
  T __tsan_atomic##w##_fetch_nand (volatile T *p, T v, int o) { point (); return __atomic_fetch_nand (p, v, 5); } \
  int __tsan_atomic##w##_compare_exchange_strong (volatile T *p, T *e, T v, int o, int f) { point (); return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
  int __tsan_atomic##w##_compare_exchange_weak (volatile T *p, T *e, T v, int o, int f) { point (); return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
  T __tsan_atomic##w##_compare_exchange_val (volatile T *p, T e, T v, int o, int f) { point (); __atomic_compare_exchange_n (p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence (int o) { point (); }
void __tsan_atomic_signal_fence (int o) { }
