// Counts executed edges and allocated bytes of an instrumented program; written to the file named by STEPS_OUT at exit.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
static uint64_t steps, bytes, live, peak;
extern "C" void __sanitizer_cov_trace_pc_guard_init( uint32_t *start, uint32_t *stop ) { for (uint32_t *p = start; p < stop; ++p) *p = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard( uint32_t* ) { ++steps; }
void *operator new( size_t n )
{
    bytes += n; live += n; if (live > peak) peak = live;
    size_t *p = (size_t*) malloc(n + 16);
    if (!p) throw std::bad_alloc();
    *p = n;
    return (char*) p + 16;
}
void operator delete( void *p ) noexcept { if (p) { size_t *q = (size_t*) ((char*) p - 16); live -= *q; free(q); } }
void operator delete( void *p, size_t ) noexcept { operator delete(p); }
static void out() { if (const char *f = getenv("STEPS_OUT")) if (FILE *h = fopen(f, "w")) { fprintf(h, "%llu %llu %llu\n", (unsigned long long) steps, (unsigned long long) bytes, (unsigned long long) peak); fclose(h); } }
static struct Reg { Reg() { atexit(out); } } reg;
