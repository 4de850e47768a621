/* mc.h - a small stateless explorer: depth-first, exhaustive enumeration of
 * every choice sequence a harness can make, inside stated bounds.
 *
 * A scenario is a function that builds the system under test from scratch,
 * drives it, and asks the explorer for every nondeterministic decision with
 * mc_choose (free choice) or mc_deviate (choice whose non default answers are
 * charged to the deviation budget of the scenario).  The explorer re-runs the
 * scenario until the whole tree of choices was walked. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef void (*mc_fn)(void);

typedef struct mc_scenario {
    const char *name;      /* unique name of the scenario */
    mc_fn fn;              /* the body of one execution */
    int quick;             /* value handed to the body as mc_bound (quick), < 0 skips */
    int thorough;          /* value handed to the body as mc_bound (thorough), < 0 skips */
    int quick_dev;         /* deviation budget, quick */
    int thorough_dev;      /* deviation budget, thorough */
    int shard_depth;       /* number of leading choices used to split the work, 0 = 2 */
    int noabort;           /* 1: an execution must not be left by longjmp */
    const char *what;      /* one line: alphabet and oracle */
} mc_scenario;

extern int mc_bound;        /* bound of the running scenario */
extern int mc_thorough;     /* 1 in the thorough tier */
extern int mc_verbose;      /* 1 when replaying (or sampling) one execution */

int mc_choose(int n);       /* 0 .. n-1 */
int mc_deviate(int n);      /* 0 .. n-1, non zero costs one deviation */
int mc_budget(void);        /* remaining deviations */
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_skip(void) __attribute__((noreturn)); /* prunes the execution, not counted */
void mc_state(uint64_t hash);      /* records a visited abstract state */
void mc_outcome(uint64_t hash);    /* records an observed outcome */
int mc_visited(uint64_t hash);     /* records it; 1: seen elsewhere, the rest may be dropped */
void mc_step(void);                /* counts one transition (operation applied) */
void mc_trivial(void);             /* marks this execution as trivial (not counted distinct) */
uint64_t mc_hash(const void *data, size_t size, uint64_t seed);
uint64_t mc_hash_s(const char *s, uint64_t seed);
void mc_hex(char *out, size_t max, const void *data, size_t size);
size_t mc_allocated(void);         /* bytes currently allocated (asan allocator) */
int mc_main(int argc, char **argv, const mc_scenario *scenarios, size_t count);

#define mc_check(cond, ...) do { if(!(cond)) mc_fail(__VA_ARGS__); } while(0)
#define MC_MAIN(list) int main(int argc, char **argv) { \
    return mc_main(argc, argv, list, sizeof(list) / sizeof(list[0])); }

#ifdef __cplusplus
}
#endif
#endif
