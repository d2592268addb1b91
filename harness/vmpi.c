/* Controlled message order: when several pending messages have arrived, which of them MPI_Waitany reports
** is chosen by a pseudo-random sequence, and calls are delayed at random, so that every process may be ahead
** of or behind the others at any of its communications.  vm_begin (0, 0, 0) restores the ordinary behaviour. */
#include <stdint.h>
#include <time.h>
#include <sched.h>
#include <mpi.h>

#define PATIENCE 3000                                     /* Microseconds */

static uint64_t  rs;
static int       prob;                                    /* Probability of a delay, in thousandths */
static int       len;                                     /* Longest delay, in microseconds         */
static long      nbr;                                     /* Number of choices made                 */

static uint64_t rnd (void) {                              /* Threads may race for it: any value will do */
  uint64_t z = (rs += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

void vm_begin (uint64_t seed, int p, int l) { rs = seed; prob = p; len = l; nbr = 0; }
long vm_choices (void) { return nbr; }

static void lag (void) {
  if (prob > 0 && (int) (rnd () % 1000) < prob) {
    struct timespec t = { 0, (long) (rnd () % (uint64_t) (len + 1)) * 1000L };
    nanosleep (&t, NULL);
  }
}

/* What is known of a request: 0 if it is null or inactive (a persistent request which is not started), 1 if pending,
** 2 if complete.  The status of an inactive request is the empty one. */
static int look (MPI_Request r) {
  MPI_Status st;
  int        f;

  if (r == MPI_REQUEST_NULL || PMPI_Request_get_status (r, &f, &st) != MPI_SUCCESS)
    return 0;
  return ! f ? 1 : (st.MPI_SOURCE == MPI_ANY_SOURCE && st.MPI_TAG == MPI_ANY_TAG) ? 0 : 2;
}

int MPI_Waitany (int n, MPI_Request * r, int * idx, MPI_Status * st) {
  int i, k, s;
  struct timespec t0, t;

  if (prob <= 0 || n <= 0)
    return PMPI_Waitany (n, r, idx, st);
  lag ();
  s = (int) (rnd () % (uint64_t) n);                      /* The first one to be looked for in a circular order... */
  for (i = 0; i < n && look (r[s]) == 0; i ++)
    s = (s + 1) % n;
  if ((rnd () & 3) != 0) {                                /* ... which may be awaited for a while                  */
    clock_gettime (CLOCK_MONOTONIC, &t0);
    while (look (r[s]) == 1) {
      clock_gettime (CLOCK_MONOTONIC, &t);
      if ((t.tv_sec - t0.tv_sec) * 1000000L + (t.tv_nsec - t0.tv_nsec) / 1000L > PATIENCE)
        break;
      sched_yield ();
    }
  }
  for ( ; ; ) {
    int alive = 0;
    for (i = 0; i < n; i ++) {
      int j = (s + i) % n;
      k = look (r[j]);
      if (k == 2) {
        nbr ++;
        *idx = j;
        return PMPI_Wait (&r[j], st);
      }
      alive |= k;
    }
    if (! alive)
      return PMPI_Waitany (n, r, idx, st);
    sched_yield ();
  }
}

#define LAG2(name, decl, args) int name decl { lag (); return P##name args; }
LAG2 (MPI_Isend,    (const void * b, int c, MPI_Datatype d, int p, int t, MPI_Comm m, MPI_Request * r), (b, c, d, p, t, m, r))
LAG2 (MPI_Send,     (const void * b, int c, MPI_Datatype d, int p, int t, MPI_Comm m), (b, c, d, p, t, m))
LAG2 (MPI_Irecv,    (void * b, int c, MPI_Datatype d, int p, int t, MPI_Comm m, MPI_Request * r), (b, c, d, p, t, m, r))
LAG2 (MPI_Recv,     (void * b, int c, MPI_Datatype d, int p, int t, MPI_Comm m, MPI_Status * s), (b, c, d, p, t, m, s))
LAG2 (MPI_Waitall,  (int n, MPI_Request * r, MPI_Status * s), (n, r, s))
LAG2 (MPI_Allreduce, (const void * a, void * b, int c, MPI_Datatype d, MPI_Op o, MPI_Comm m), (a, b, c, d, o, m))
LAG2 (MPI_Alltoall, (const void * a, int c, MPI_Datatype d, void * b, int e, MPI_Datatype f, MPI_Comm m), (a, c, d, b, e, f, m))
LAG2 (MPI_Startall, (int n, MPI_Request * r), (n, r))
