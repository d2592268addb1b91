/* Exercises the thread primitives of the library under the controlled
** scheduler and logs what the threads do: [context, code, thread, a, b]. */
#define _GNU_SOURCE
#include "module.h"
#include "common.h"
#include "common_thread.h"
#include <malloc.h>
#include <sched.h>
#include "scotch.h"

extern void vs_point (void);
extern void vs_yield (void);
extern int  vs_live (void);

enum { CALL = 1, ENTER, BIN, BOUT, RIN, ROUT, SIN, SOUT, LEAVE, RET, EXIT, EXITED, RELEASED, READY, ENDED, SPLIT, SUB, SUBEND, SPLITRET, INIT };

static int *lg; static int ln, lmax;
__attribute__ ((no_sanitize_thread, noinline)) static void out (int c, int k, int t, int a, int b)
{
  if (ln + 5 <= lmax) { lg[ln] = c; lg[ln + 1] = k; lg[ln + 2] = t; lg[ln + 3] = a; lg[ln + 4] = b; ln += 5; }
}

typedef struct { int v[2]; int pad[2]; } Cell;
typedef struct { int c; const int *prog; Cell *cell; int num; int n; } Para;   /* one launch */

static int pow10i (int t) { int x = 1; while (t -- > 0) x *= 10; return x; }

static void redf (void *const l, void *const r, const void *const g)
{
  Cell *a = l, *b = r;
  int x = a->v[0];
  vs_point ();
  a->v[0] = x + b->v[0];
}
static void scaf (void *const l, void *const r, const int s, const int d, const void *const g)
{
  Cell *a = l, *b = r;
  int x = a->v[s];
  vs_point ();
  a->v[d] = (b == NULL) ? x : x + b->v[s];
}

static void work (ThreadDescriptor *const desc, void *const para)
{
  Para *p = para;
  int t = desc->thrdnum, n = desc->contptr->thrdnbr, k;
  Cell *cell = p->cell + t;

  out (p->c, ENTER, t, p->num, n);
  for (k = 0; p->prog[k] != 0; k ++) {
    int op = p->prog[k] % 10, arg = p->prog[k] / 10, v = (1 + k % 9) * pow10i (t), o;

    switch (op) {
      case 1 :
        out (p->c, BIN, t, 0, 0);
        o = threadContextBarrier (desc->contptr);
        out (p->c, BOUT, t, o != 0, 0);
        break;
      case 2 :
        cell->v[0] = v;
        out (p->c, RIN, t, v, arg % n);
        threadReduce (desc, cell, sizeof (Cell), redf, arg % n, NULL);
        out (p->c, ROUT, t, (t == arg % n) ? cell->v[0] : 0, 0);
        cell->v[0] = -1;
        cell->v[1] = -2;
        break;
      case 3 :
        cell->v[0] = v;
        cell->v[1] = v;
        out (p->c, SIN, t, v, 0);
        threadScan (desc, cell, sizeof (Cell), scaf, NULL);
        out (p->c, SOUT, t, cell->v[0], 0);
        cell->v[0] = -3;
        cell->v[1] = -4;
        break;
      default :
        for (o = 0; o < arg; o ++)
          vs_point ();
    }
  }
  out (p->c, LEAVE, t, p->num, 0);
}

/* prog: launches separated by 0, ended by -1; an item below -1 splits the context */
static void drive (Context *contptr, int c, const int *prog, int depth);

typedef struct { int c; const int *prog; int depth; } Split;

static void half (Context *const contptr, const int num, void *const para)
{
  Split *s = para;
  int c = 10 * s->c + 1 + num;

  out (c, SUB, 0, threadContextNbr (contptr->thrdptr), num);
  drive (contptr, c, s->prog, s->depth + 1);
  out (c, SUBEND, 0, 0, 0);
}

static void drive (Context *contptr, int c, const int *prog, int depth)
{
  int num = 1, n = threadContextNbr (contptr->thrdptr);
  Cell *cell = calloc (n, sizeof (Cell));

  while (*prog != -1) {
    if (*prog < -1) {
      if (depth < 2 && n > 1) {
        Split s;
        s.c = c; s.prog = prog + 1; s.depth = depth;
        out (c, SPLIT, 0, 0, 0);
        out (c, SPLITRET, 0, contextThreadLaunchSplit (contptr, half, &s), 0);
      }
      prog ++;
      continue;
    }
    Para p;
    p.c = c; p.prog = prog; p.cell = cell; p.num = num ++; p.n = n;
    out (c, CALL, 0, p.num, 0);
    contextThreadLaunch (contptr, work, &p);
    out (c, RET, 0, p.num, 0);
    memset (&p, 0xA5, sizeof (p));
    while (*prog != 0) prog ++;
    prog ++;
  }
  free (cell);
}

typedef struct { SCOTCH_Context *ctx; int t; volatile int *go; } Pool;
static void *slave (void *a)
{
  Pool *p = a;
  int o;
  while (*p->go == 0) vs_yield ();
  o = SCOTCH_contextThreadImport2 (p->ctx, p->t);
  out (0, RELEASED, p->t, o, 0);
  return NULL;
}

int thr_run (int pool, int n, const int *prog, const int *core, int *log, int maxlog)
{
  SCOTCH_Context ctx;
  Pool ps[16];
  pthread_t id[16];
  volatile int go = 0;
  cpu_set_t a, b;
  int o, i, base = vs_live ();

  { void *x = malloc (sizeof (ThreadContext)); memset (x, 0x55, sizeof (ThreadContext)); __asm__ volatile ("" : : "r" (x) : "memory"); free (x); }
  sched_getaffinity (0, sizeof (a), &a);
  lg = log; ln = 0; lmax = maxlog;
  memset (&ctx, 0x55, sizeof (ctx));
  SCOTCH_contextInit (&ctx);
  out (0, INIT, 0, n, pool);
  if (pool) {
    for (i = 1; i < n; i ++) {
      ps[i].ctx = &ctx; ps[i].t = i; ps[i].go = &go;
      pthread_create (&id[i], NULL, slave, &ps[i]);
    }
    o = SCOTCH_contextThreadImport1 (&ctx, n);
    go = 1;
    o |= SCOTCH_contextThreadImport2 (&ctx, 0);
  }
  else
    o = SCOTCH_contextThreadSpawn (&ctx, n, core);
  out (0, READY, 0, threadContextNbr (((Context *) &ctx)->thrdptr), o);
  if (o == 0)
    drive ((Context *) &ctx, 0, prog, 0);
  out (0, EXIT, 0, 0, 0);
  SCOTCH_contextExit (&ctx);
  sched_getaffinity (0, sizeof (b), &b);
  out (0, EXITED, 0, CPU_EQUAL (&a, &b) ? 1 : 0, 0);
  if (! CPU_EQUAL (&a, &b))
    sched_setaffinity (0, sizeof (a), &a);
  memset (&ctx, 0x5A, sizeof (ctx));
  if (pool)
    for (i = 1; i < n; i ++)
      pthread_join (id[i], NULL);
  for (i = 0; i < 200000 && vs_live () > base; i ++)
    vs_yield ();
  out (0, ENDED, 0, vs_live () - base, 0);
  return ln / 5;
}
