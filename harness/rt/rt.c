/* Native side of the harness interface: replays one solver assignment against the real build.
 * AXS_REPLAY file: name=value lines, "#crash=a,b,.." line.  AXS_GHOST: ghost memory file.  AXS_PHASE: restart count. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define GHOST (1 << 20)
static struct { char *k; uint64_t v; } *tab;
static size_t ntab;
static uint64_t crash_at[64];
static size_t ncrash;
static int loaded, verbose;
static volatile int region_on;
static volatile uint64_t count;
static char *ghost;

static void load(void) {
    if (loaded) return;
    loaded = 1;
    verbose = getenv("AXS_VERBOSE") != 0;
    const char *p = getenv("AXS_REPLAY");
    FILE *f = p ? fopen(p, "r") : 0;
    if (!f) return;
    char line[4096];
    size_t cap = 0;
    while (fgets(line, sizeof line, f)) {
        char *e = strrchr(line, '=');
        if (!e) continue;
        *e = 0;
        if (!strcmp(line, "#crash")) {
            char *s = e + 1;
            while (*s && *s != '\n' && ncrash < 64) { crash_at[ncrash++] = strtoull(s, &s, 10); if (*s == ',') s++; }
            continue;
        }
        if (ntab == cap) { cap = cap ? cap * 2 : 64; tab = realloc(tab, cap * sizeof *tab); }
        tab[ntab].k = strdup(line);
        tab[ntab++].v = strtoull(e + 1, 0, 10);
    }
    fclose(f);
}
static uint64_t get(const char *n, size_t l) {
    load();
    for (size_t i = 0; i < ntab; i++) if (strlen(tab[i].k) == l && !memcmp(tab[i].k, n, l)) return tab[i].v;
    return 0;
}
uint64_t axs_sym(const char *n, size_t l, uint32_t bits) {
    uint64_t v = get(n, l);
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void axs_bytes(const char *n, size_t l, uint8_t *p, size_t len) {
    char b[512];
    for (size_t i = 0; i < len; i++) { int k = snprintf(b, sizeof b, "%.*s[%zu]", (int)l, n, i); p[i] = (uint8_t)get(b, k); }
}
void axs_assume(uint64_t c) { if (!c) { fprintf(stderr, "AXS-INFEASIBLE\n"); _exit(78); } }
void axs_check(uint64_t c, const char *id, size_t l) { if (!c) { fprintf(stderr, "AXS-VIOLATION %.*s\n", (int)l, id); _exit(77); } }
void axs_soft(uint64_t c, const char *id, size_t l) { if (!c) fprintf(stderr, "AXS-VIOLATION %.*s\n", (int)l, id); }
uint64_t axs_conc(uint64_t v) { return v; }
uint64_t axs_decide(uint64_t v) { return v != 0; }
uint64_t axs_is_symbolic(void) { return 0; }
uint64_t axs_is_concrete(uint64_t v) { (void)v; return 1; }
uint64_t axs_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
void axs_reach(const char *n, size_t l) { (void)n; (void)l; }
void axs_note(const char *n, size_t l) { load(); if (getenv("AXS_VERBOSE")) fprintf(stderr, "note: %.*s\n", (int)l, n); }
void axs_noteval(const char *n, size_t l, uint64_t v) { load(); if (verbose) fprintf(stderr, "note: %.*s = %lld\n", (int)l, n, (long long)v); }
uint64_t axs_phase(void) { const char *p = getenv("AXS_PHASE"); return p ? strtoull(p, 0, 10) : 0; }
char *axs_ghost(void) {
    if (ghost) return ghost;
    const char *p = getenv("AXS_GHOST");
    if (p) {
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || syscall(SYS_ftruncate, fd, GHOST)) { perror("ghost"); _exit(79); }
        ghost = mmap(0, GHOST, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else ghost = mmap(0, GHOST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return ghost;
}
void axs_crash_region(uint32_t on, uint64_t max) { load(); (void)max; if (on) count = 0; region_on = on; }
void axs_crash_now(void) { _exit(75); }
void axs_sched(uint32_t n) { (void)n; }
static void point(void) {
    if (!region_on) return;
    uint64_t i = __sync_fetch_and_add(&count, 1), ph = axs_phase();
    if (ph < ncrash && crash_at[ph] == i) _exit(75);
}
ssize_t write(int fd, const void *p, size_t n) { if (fd > 2) point(); return syscall(SYS_write, fd, p, n); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { point(); return syscall(SYS_pwrite64, fd, p, n, o); }
int ftruncate64(int fd, off64_t n) { point(); return syscall(SYS_ftruncate, fd, n); }
int unlink(const char *p) { point(); return syscall(SYS_unlink, p); }
int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if ((fl & O_CREAT) && access(p, F_OK) != 0) point();
    if (fl & O_TRUNC) point();
    return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
#include <sys/resource.h>
/* a single allocation above the limit fails (roughly: the address space left is the limit and some slack) */
void axs_alloc_limit(uint64_t n) {
    struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY};
    if (n) {
        unsigned long pages = 0;
        FILE *f = fopen("/proc/self/statm", "r");
        if (f) { if (fscanf(f, "%lu", &pages) != 1) pages = 0; fclose(f); }
        r.rlim_cur = pages * 4096 + n + (64u << 20);
    }
    setrlimit(RLIMIT_AS, &r);
}
void axs_opaque(uint32_t on) { (void)on; }
