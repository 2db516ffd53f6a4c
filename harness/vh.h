/* Shared support for the monitors: PRNG, verdicts, statistics, interposers. */
#ifndef VH_H
#define VH_H 1

#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>

#ifdef __cplusplus
extern "C" {
#endif

/* portable C: frames are popped by return or by GGC_POP, and by nothing else */
#if !defined(__cplusplus) && (defined(GGGGC_NO_GNUC_FEATURES) || defined(GGGGC_NO_GNUC_CLEANUP))
#define VH_PORTC 1
#endif

/* ---- PRNG (splitmix/xorshift; one state per thread if wanted) ---- */
typedef struct { uint64_t s; } vh_rng;
static inline uint64_t vh_next(vh_rng *r)
{
    uint64_t z = (r->s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline uint64_t vh_below(vh_rng *r, uint64_t n) { return n ? vh_next(r) % n : 0; }
static inline int vh_pct(vh_rng *r, unsigned p) { return vh_below(r, 100) < p; }

/* ---- arguments: key=value ---- */
void vh_init(int argc, char **argv);
long vh_arg(const char *key, long dflt);
const char *vh_sarg(const char *key, const char *dflt);

/* ---- verdicts ---- */
/* prints VH-VIOLATION and ends the process with status 10 */
void vh_viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/* a problem of the harness itself: status 11 */
void vh_bug(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

/* ---- statistics, printed as one JSON line by vh_done ---- */
void vh_stat(const char *key, long add);
void vh_stat_max(const char *key, long v);
/* remember a hash of something seen; the number of distinct ones is reported */
void vh_distinct(const char *key, uint64_t h);
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vh_done(void);           /* prints the statistics; exit status 0 follows */

static inline uint64_t vh_hash(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
}

/* ---- interposed functions ---- */
void *vh_malloc(size_t n);            /* the real one, never counted/failed */
void *vh_calloc(size_t n, size_t m);
void *vh_realloc(void *p, size_t n);
void vh_free(void *p);

extern size_t vh_poolBytes;           /* set by the harness: GGGGC_POOL_BYTES */
extern volatile long vh_pools;        /* pools the library obtained so far */
extern volatile long vh_poolsRefused;
extern volatile long vh_barriers;     /* pthread_barrier_wait calls */
extern volatile long vh_barrierCap;  /* if set, more calls than this are a violation */
extern int vh_junk;                   /* fill new pools with junk */
/* fault plan: request numbers are counted from 0 over pool requests */
extern long vh_failFrom, vh_failTo;   /* refuse requests in [from, to) */
extern int vh_failPct;                /* or at random */
extern int vh_failAll;                /* small mallocs of the library as well */
extern volatile long vh_poolRequests;
extern vh_rng vh_failRng;
/* thread creation faults */
extern long vh_failThread;            /* refuse every n-th creation (0 = none) */
/* a watchdog over a progress counter: reports "deadlock" when no thread of the
 * process can run and none has been scheduled for a while, and "no-progress"
 * when the counter stood still for seconds */
void vh_watchStart(volatile long *progress, long seconds, const char *(*describe)(void));
void vh_watchStop(void);
/* random delays in interposed synchronisation */
extern int vh_busyPct; /* share of pthread_mutex_trylock calls that find the lock taken */
extern int vh_delayPct;

/* address of the n-th pool, its size; used to look whether things lie inside */
int vh_inPool(const void *p);
char *vh_poolEnd(const void *p);       /* the end of the memory from the system that holds this, or NULL */

#ifdef __cplusplus
}
#endif
#endif
