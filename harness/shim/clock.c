/* Another time and another process number than there are, for whoever asks the C library. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define AWAY (5 * 365 * 86400L + 40000)

int clock_gettime(clockid_t id, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (!r && id == CLOCK_REALTIME) t->tv_sec += AWAY;
    return r;
}

int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return r;
}

time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}

pid_t getpid(void) { return 77; }

int gethostname(char *name, size_t n) {
    if (n < 6) return -1;
    name[0] = 'o'; name[1] = 't'; name[2] = 'h'; name[3] = 'e'; name[4] = 'r'; name[5] = 0;
    return 0;
}
