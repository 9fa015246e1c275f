/* Preloaded into programs that decode: other surroundings than usual.
   WADEC_SHIM has a "c": a clock that goes an hour further at each look;
   an "e": every environment variable is set, to "1". */
#define _GNU_SOURCE
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static _Thread_local long looks;

static int mode(char what) {
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "WADEC_SHIM=", 11)) return strchr(*e + 11, what) != 0;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (r == 0 && mode('c')) t->tv_sec += 3600 * ++looks;
    return r;
}
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return mode('e') ? "1" : 0;
}
