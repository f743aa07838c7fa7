/* witness harness: runs numbered, reproducible cases against the real sources of the library.
   usage: prog run NCASES SEED [first]   |   prog one ID SEED
   A failing case prints  FAIL case=<id> seed=<seed> <what>  and exits 3. */
#ifndef H_COMMON_H
#define H_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <float.h>
#include <sys/mman.h>
#include <sys/wait.h>

void run_case(unsigned long id);          /* supplied by each harness */

struct shared { unsigned long id, done, nontrivial; char msg[4000]; };
static struct shared *SH;
static uint64_t rng_s, SEED;

static inline uint64_t rnd64(void) { uint64_t z = (rng_s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static inline uint64_t rnd(uint64_t n) { return n ? rnd64() % n : 0; }
static inline double rndu(void) { return (double)(rnd64() >> 11) / 9007199254740992.0; }

__attribute__((noreturn, format(printf, 1, 2)))
static void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(SH->msg, sizeof SH->msg, fmt, ap); va_end(ap);
    fflush(NULL); _exit(3);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static inline void nontrivial(void) { SH->nontrivial++; }

static void on_alarm(int s) { (void)s; static const char m[] = "the case did not terminate within 100 s";
    memcpy(SH->msg, m, sizeof m); _exit(4); }

static void worker(unsigned long a, unsigned long b) {
    if (!freopen("/dev/null", "w", stdout)) _exit(9);
    signal(SIGALRM, on_alarm);
    for (unsigned long i = a; i < b; i++) {
        SH->id = i;
        rng_s = SEED * 0x9e3779b97f4a7c15ULL + i * 0xd1342543de82ef95ULL + 12345;
        alarm(100);
        run_case(i);
        SH->done++;
    }
    alarm(0);
    fflush(NULL);
    _exit(0);
}

int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    unsigned long n = strtoul(argv[2], NULL, 10);
    SEED = strtoull(argv[3], NULL, 10);
    unsigned long a = 0, b = n;
    if (!strcmp(argv[1], "one")) { a = n; b = n + 1; }
    pid_t p = fork();
    if (p == 0) worker(a, b);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        printf("PASS cases=%lu nontrivial=%lu\n", SH->done, SH->nontrivial);
        return 0;
    }
    printf("FAIL case=%lu seed=%llu %s", SH->id, (unsigned long long)SEED, SH->msg[0] ? SH->msg : "the code crashed");
    if (WIFSIGNALED(st)) printf(" (signal %d)", WTERMSIG(st)); else printf(" (exit %d)", WEXITSTATUS(st));
    printf("\n");
    return 3;
}
#endif
