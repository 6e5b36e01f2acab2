// A C program using the library, told what to do line by line on standard input:
//   lib PATH | bufs literal|shared|fresh
//   schema K DEV MEAS TYPE ENC COMP | free K | writer W K FILE | w W DEV MEAS TS VALUE | close W
//   null: free and close what is not there
// Strings are in hexadecimal.  A line that begins with @ is done by a thread of its own, while the others wait.
#include <dlfcn.h>
#include <inttypes.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void *(*schema_simple)(const char *, const char *, uint8_t, uint8_t, uint8_t);
static void (*schema_free)(void *);
static void *(*file_writer_new)(const char *, void *);
static void *(*file_writer_write_int32)(void *, const char *, const char *, int64_t, int32_t);
static void (*file_writer_close)(void *);

static char shared[3][1 << 16];
static int mode;

static size_t unhex(const char *h, char *to) {
    size_t n = 0;
    for (; h[0] && h[1]; h += 2) {
        unsigned x;
        sscanf((char[]){h[0], h[1], 0}, "%x", &x);
        to[n++] = (char)x;
    }
    to[n] = 0;
    return n;
}

// A string for one call: kept for ever, in a buffer that is used again, or freed afterwards.
static char *lend(int which, const char *h) {
    char *b = mode == 1 ? shared[which] : malloc(strlen(h) / 2 + 2);
    unhex(strcmp(h, "-") ? h : "", b);
    return b;
}
static void back(int which, char *b) {
    if (mode == 0) return;
    memset(b, '~', strlen(b));
    if (mode == 2) free(b);
    (void)which;
}

static int step(char *line) {
    static char a[3][1 << 15];
    static void *schemas[64], *writers[64], *lib;
    {
        int k, w, t, e, c;
        int64_t ts;
        int32_t v;
        if (sscanf(line, "lib %s", a[0]) == 1) {
            lib = dlopen(a[0], RTLD_NOW);
            if (!lib) { fprintf(stderr, "plan: %s\n", dlerror()); return 3; }
            *(void **)&schema_simple = dlsym(lib, "schema_simple");
            *(void **)&schema_free = dlsym(lib, "schema_free");
            *(void **)&file_writer_new = dlsym(lib, "file_writer_new");
            *(void **)&file_writer_write_int32 = dlsym(lib, "file_writer_write_int32");
            *(void **)&file_writer_close = dlsym(lib, "file_writer_close");
            if (!schema_simple || !schema_free || !file_writer_new || !file_writer_write_int32 || !file_writer_close) return 3;
        } else if (sscanf(line, "bufs %s", a[0]) == 1) {
            mode = !strcmp(a[0], "shared") ? 1 : !strcmp(a[0], "fresh") ? 2 : 0;
        } else if (sscanf(line, "schema %d %s %s %d %d %d", &k, a[0], a[1], &t, &e, &c) == 6) {
            // a schema borrows its strings: they stay
            char *d = malloc(1 << 12), *m = malloc(1 << 12);
            unhex(strcmp(a[0], "-") ? a[0] : "", d);
            unhex(strcmp(a[1], "-") ? a[1] : "", m);
            schemas[k] = schema_simple(d, m, t, e, c);
        } else if (sscanf(line, "free %d", &k) == 1) {
            schema_free(schemas[k]);
            schemas[k] = 0;
        } else if (sscanf(line, "writer %d %d %s", &w, &k, a[0]) == 3) {
            char *f = lend(0, a[0]);
            writers[w] = file_writer_new(f, schemas[k]);
            back(0, f);
        } else if (sscanf(line, "w %d %s %s %" SCNd64 " %" SCNd32, &w, a[0], a[1], &ts, &v) == 5) {
            char *d = lend(1, a[0]), *m = lend(2, a[1]);
            writers[w] = file_writer_write_int32(writers[w], d, m, ts, v);
            back(1, d);
            back(2, m);
        } else if (sscanf(line, "close %d", &w) == 1) {
            file_writer_close(writers[w]);
            writers[w] = 0;
            printf("closed %d\n", w);
            fflush(stdout);
        } else if (!strncmp(line, "null", 4)) {
            schema_free(0);
            file_writer_close(0);
        } else {
            fprintf(stderr, "plan: %s", line);
            return 3;
        }
    }
    return 0;
}

static void *alone(void *line) { return (void *)(intptr_t)step(line); }

int main(void) {
    static char line[1 << 16];
    while (fgets(line, sizeof line, stdin)) {
        void *r = 0;
        pthread_t th;
        if (line[0] != '@') r = alone(line);
        else if (pthread_create(&th, 0, alone, line + 1) || pthread_join(th, &r)) {
            fprintf(stderr, "plan: no thread");
            return 3;
        }
        if (r) return 3;
    }
    puts("done");
    return 0;
}
