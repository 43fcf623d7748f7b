// Preloaded: addresses of allocations in random order and filled with random bytes, another clock, process number, user, host name and
// terminal, and variables of the environment with random values, whatever their names.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/utsname.h>
extern char **environ;
enum { REGIONS = 64 };
static const size_t REGION = (size_t) 1 << 28;
static unsigned char *base;
static size_t used[REGIONS];
static uint64_t state;
static uint64_t next( void ) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
static char *real_getenv( const char *name )
{
    size_t n = strlen(name);
    for (char **e = environ; e && *e; ++e)
        if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
static void init( void )
{
    const char *s = real_getenv("CHAOS_SEED");
    state = 88172645463325252ull;
    for (; s && *s; ++s) state = state * 1099511628211ull + (unsigned char) *s;
    for (int i = 0; i < 20; ++i) next();
    base = (unsigned char*) mmap(NULL, REGION * REGIONS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) _exit(125);
}
static void *take( size_t align, size_t n )
{
    if (!base) init();
    if (align < 16) align = 16;
    if (n > REGION / 2) { errno = ENOMEM; return NULL; }
    for (int tries = 0; tries < 1000; ++tries)
    {
        int r = (int) (next() % REGIONS);
        size_t at = (used[r] + 16 + (next() % 8) * 16 + align - 1) & ~(align - 1);
        if (at + n > REGION) continue;
        used[r] = at + n;
        unsigned char *p = base + REGION * r + at;
        *(size_t*) (p - 16) = n;
        if (n <= 4096) for (size_t i = 0; i < n; ++i) p[i] = (unsigned char) next();
        else memset(p, (int) next(), n);
        return p;
    }
    errno = ENOMEM;
    return NULL;
}
void *malloc( size_t n ) { return take(16, n); }
void free( void *p ) { (void) p; }
void *calloc( size_t a, size_t b ) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; void *p = take(16, n); if (p) memset(p, 0, n); return p; }
void *realloc( void *p, size_t n ) { void *q = take(16, n); if (q && p) { size_t o = *(size_t*) ((unsigned char*) p - 16); memcpy(q, p, o < n ? o : n); } return q; }
void *memalign( size_t a, size_t n ) { return take(a, n); }
void *aligned_alloc( size_t a, size_t n ) { return take(a, n); }
int posix_memalign( void **out, size_t a, size_t n ) { void *p = take(a, n); if (!p) return ENOMEM; *out = p; return 0; }
static time_t now( void ) { if (!base) init(); return (time_t) (state % 4000000000u); }
time_t time( time_t *t ) { time_t v = now(); if (t) *t = v; return v; }
int gettimeofday( struct timeval *tv, void *z ) { (void) z; if (tv) { tv->tv_sec = now(); tv->tv_usec = (suseconds_t) (state % 1000000); } return 0; }
int clock_gettime( clockid_t id, struct timespec *ts ) { (void) id; if (ts) { ts->tv_sec = now(); ts->tv_nsec = (long) (state % 1000000000); } return 0; }
pid_t getpid( void ) { return (pid_t) (now() % 30000 + 2); }
int gethostname( char *name, size_t n ) { if (n) { strncpy(name, now() % 2 ? "alpha" : "beta", n); name[n - 1] = 0; } return 0; }
uid_t getuid( void ) { return (uid_t) (now() % 60000); }
uid_t geteuid( void ) { return (uid_t) (now() % 60000); }
int isatty( int fd ) { if ((now() >> (fd & 7)) & 1) return 1; errno = ENOTTY; return 0; }
int uname( struct utsname *u ) { memset(u, 0, sizeof *u); strcpy(u->sysname, now() % 2 ? "Linux" : "Other"); strcpy(u->nodename, now() % 3 ? "gamma" : "delta"); strcpy(u->release, "1.2.3"); strcpy(u->version, "x"); strcpy(u->machine, "y"); return 0; }
char *getenv( const char *name )
{
    static const char *const own[] = { "LC_", "LANG", "LOCPATH", "GLIB", "GCONV", "MALLOC_", "LD_", "CHAOS_", "NLSPATH" };
    static const char *const values[] = { "", "0", "1", "yes", "no", "/tmp", "123456789", "x y", "/", "%s" };
    uint64_t h = (uint64_t) now();
    for (size_t i = 0; i < sizeof own / sizeof *own; ++i)
        if (strncmp(name, own[i], strlen(own[i])) == 0) return real_getenv(name);
    for (const char *p = name; *p; ++p) h = (h ^ (unsigned char) *p) * 1099511628211ull;
    h ^= h >> 29;
    if (h % 4 == 0) return NULL;
    if (h % 4 == 1) return real_getenv(name);
    return (char*) values[(h >> 4) % 10];
}
char *secure_getenv( const char *name ) { return getenv(name); }
