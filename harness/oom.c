// Preloaded: malloc fails at some call (OOM_AT), or from that call on (OOM_MORE=1); OOM_LOG receives the number of calls and of failures.
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc( size_t );
static long count, failed, at = -2;
static int more;
void *malloc( size_t n )
{
    if (at == -2)
    {
        const char *s = getenv("OOM_AT"), *m = getenv("OOM_MORE");
        at = s ? atol(s) : -1;
        more = m && *m == '1';
    }
    ++count;
    if (at >= 0 && (count == at || (more && count > at))) { ++failed; errno = ENOMEM; return NULL; }
    return __libc_malloc(n);
}
__attribute__((destructor)) static void finish( void )
{
    const char *s = getenv("OOM_LOG");
    char t[64];
    int fd = s ? open(s, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
    if (fd < 0) return;
    int n = snprintf(t, sizeof(t), "%ld %ld\n", count, failed);
    if (write(fd, t, (size_t) n) != n) _exit(125);
    close(fd);
}
