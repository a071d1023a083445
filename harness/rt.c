// Native runtime of the sx_* intrinsics: replays one assignment of the symbolic inputs.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static uint64_t *vals; static size_t n, at; static int loaded;
static uint64_t next(void) {
    if (!loaded) {
        loaded = 1;
        const char *p = getenv("SX_INPUT"); FILE *f = p ? fopen(p, "r") : 0;
        if (f) { size_t cap = 0; unsigned long long x;
            while (fscanf(f, " %llu", &x) == 1) { if (n == cap) { cap = cap ? 2 * cap : 64; vals = realloc(vals, cap * 8); } vals[n++] = x; }
            fclose(f); }
    }
    return at < n ? vals[at++] : 0;
}
uint64_t sx_pick(uint64_t k) { uint64_t v = next(); if (v >= k) { fprintf(stderr, "sx_pick: %llu of %llu\n", (unsigned long long)v, (unsigned long long)k); _exit(78); } return v; }
uint64_t sx_var(uint32_t bits) { uint64_t v = next(); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void sx_assume(int c) { if (!(c & 1)) _exit(77); }
void sx_check(int c, const char *m, uint64_t l) { if (!(c & 1)) { fflush(stdout); fprintf(stderr, "SX-CHECK-FAILED %.*s\n", (int)l, m); _exit(88); } }
void sx_cover(const char *m, uint64_t l) { printf("COVER %.*s\n", (int)l, m); }
uint64_t sx_conc(uint64_t x) { return x; }
/* lines of the C and the Rust side do not mix within a line */
__attribute__((constructor)) static void lines(void) { setvbuf(stdout, NULL, _IOLBF, 1 << 16); }
void sx_out(uint64_t x) { printf("OUT %llu\n", (unsigned long long)x); }
int sx_native(void) { return 1; }
void sx_dump(uint64_t x) { fprintf(stderr, "DUMP %llu\n", (unsigned long long)x); }
/* the stream is that file from here on, or the original one if fd is negative */
void sx_redirect(int stream, int fd) {
    static int saved[3] = {-1, -1, -1};
    fflush(stdout);
    if (fd >= 0) { if (saved[stream] < 0) saved[stream] = dup(stream); dup2(fd, stream); }
    else if (saved[stream] >= 0) { dup2(saved[stream], stream); close(saved[stream]); saved[stream] = -1; }
}
/* the command line of the process from here on: the standard library takes it from a function in .init_array */
extern void (*__init_array_start[])(int, char **, char **);
extern void (*__init_array_end[])(int, char **, char **);
extern char **environ;
void sx_args(int argc, char **argv, char **envp) { (void)envp; for (void (**f)(int, char **, char **) = __init_array_start; f < __init_array_end; f++) (*f)(argc, argv, environ); }
