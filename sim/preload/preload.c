/* The seam of the generator program: its standard output and its randomness.
 * SIM_SEED: randomness; SIM_FAULTS: "N k ARG;" = the N-th write is short (s ARG), takes nothing
 * (z) or fails (e ERRNO); SIM_LIMIT: bytes after which every write fails with SIM_LIMIT_ERRNO.
 * What happened is written to the real descriptor 2. */
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <unistd.h>

static unsigned long nwrite, written;
static int started;
static uint64_t state;

static long raw3(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void say(const char *k, unsigned long a) {
    char b[64];
    int n = snprintf(b, sizeof b, "%s %lu\n", k, a);
    if (k[0] == 'F') n = snprintf(b, sizeof b, "%s\n", k);
    raw3(SYS_write, 2, (long)b, n);
}
static const char *name(int e) {
    switch (e) {
    case EINTR: return "F eintr";
    case EIO: return "F eio";
    case EAGAIN: return "F eagain";
    case ENOSPC: return "F enospc";
    case EPIPE: return "F epipe";
    default: return "F error";
    }
}
__attribute__((constructor)) static void begin(void) {
    struct rlimit l = {20, 21};
    setrlimit(RLIMIT_CPU, &l);
    const char *s = getenv("SIM_SEED");
    state = s ? strtoull(s, 0, 10) : 1;
    started = 1;
}
static uint64_t next(void) {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
    (void)fl;
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next();
    return (ssize_t)n;
}
static ssize_t out(const void *p, size_t n) {
    unsigned long me = nwrite++;
    const char *lim = getenv("SIM_LIMIT"), *f = getenv("SIM_FAULTS");
    unsigned long limit = lim ? strtoul(lim, 0, 10) : ~0ul;
    size_t take = n;
    if (nwrite > 100000) {
        say("F endless", 0);
        _exit(99);
    }
    while (f && *f) {
        char *e;
        unsigned long at = strtoul(f, &e, 10);
        while (*e == ' ') e++;
        char k = *e++;
        unsigned long arg = strtoul(e, &e, 10);
        if (at == me) {
            if (k == 's') {
                if (arg < take) {
                    take = arg;
                    say("F short", 0);
                }
            } else if (k == 'z') {
                say("F zero", 0);
                return 0;
            } else {
                say(name((int)arg), 0);
                errno = (int)arg;
                return -1;
            }
        }
        f = strchr(e, ';');
        if (f) f++;
    }
    if (written + take > limit) {
        take = limit - written;
        if (take == 0 && n > 0) {
            const char *le = getenv("SIM_LIMIT_ERRNO");
            int e = le ? atoi(le) : ENOSPC;
            say(name(e), 0);
            errno = e;
            return -1;
        }
        say("F full", 0);
    }
    size_t done = 0;
    while (done < take) {
        long r = raw3(SYS_write, 1, (long)((const char *)p + done), (long)(take - done));
        if (r == -EINTR) continue;
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        done += (size_t)r;
    }
    written += take;
    say("W", take);
    return (ssize_t)take;
}
ssize_t write(int fd, const void *p, size_t n) {
    if (fd == 1 && started) return out(p, n);
    if (fd == 2) return (ssize_t)n;
    long r = raw3(SYS_write, fd, (long)p, (long)n);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (v[i].iov_len == 0) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
