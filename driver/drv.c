#define _GNU_SOURCE
#include "drv.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#if defined(__x86_64__) && defined(__linux__)
#include <ucontext.h>
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#define UNPOISON(p, n) __msan_unpoison(p, n)
#define DEFINED(p, n) (__msan_test_shadow(p, n) < 0)
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define DEFINED(p, n) 1
#endif

#ifndef MAP_ANONYMOUS
#define MAP_ANONYMOUS 0x20
#endif
#define CANARY(i) ((uint8_t)(0xC3 ^ ((i) * 29)))

struct Region {
    uint8_t *base;          /* first usable byte (after a guard page) */
    size_t size;            /* usable bytes, whole pages */
    int used;
    int ro;
    Region *next;
};

static size_t PAGE = 4096;
static const OpDef *tables[32];
static int ntables;
static pthread_mutex_t outlock = PTHREAD_MUTEX_INITIALIZER;
static __thread Ctx *cur;
static int verbose_fail_limit = 20;

/* ---- the library's writable static data (sections renamed when the library is built for this) ---- */
extern uint8_t __start_xkdata[] __attribute__((weak)), __stop_xkdata[] __attribute__((weak));
extern uint8_t __start_xkbss[] __attribute__((weak)), __stop_xkbss[] __attribute__((weak));
static int watch;
static struct { uint8_t *a, *e, *copy, *times; uintptr_t pa, pe; } wsec[2];
static int nwsec;
static const uint8_t *wbad;
static unsigned long wstores;
static void watch_compare(void)
{
    int k;
    size_t i, n;
    for (k = 0; k < nwsec; k++) {
        n = wsec[k].e - wsec[k].a;
        if (!memcmp(wsec[k].copy, wsec[k].a, n)) continue;
        for (i = 0; i < n; i++)
            if (wsec[k].copy[i] != wsec[k].a[i]) {
                wsec[k].copy[i] = wsec[k].a[i];
                /* a value computed once and kept is no state; one that changes again and again is */
                if (wsec[k].times[i] < 200) wsec[k].times[i]++;
                if (wsec[k].times[i] >= 3 && !wbad) wbad = wsec[k].a + i;
            }
    }
}
static void watch_protect(int prot)
{
    int k;
    for (k = 0; k < nwsec; k++) mprotect((void *)wsec[k].pa, wsec[k].pe - wsec[k].pa, prot);
}
static void watch_start(void)
{
    uint8_t *a[2] = {__start_xkdata, __start_xkbss}, *e[2] = {__stop_xkdata, __stop_xkbss};
    int k;
    for (k = 0; k < 2; k++)
        if (a[k] && e[k] > a[k]) {
            size_t n = e[k] - a[k];
            wsec[nwsec].a = a[k]; wsec[nwsec].e = e[k];
            wsec[nwsec].copy = malloc(n); memcpy(wsec[nwsec].copy, a[k], n);
            wsec[nwsec].times = calloc(n, 1);
            wsec[nwsec].pa = (uintptr_t)a[k] / PAGE * PAGE;
            wsec[nwsec].pe = ((uintptr_t)e[k] + PAGE - 1) / PAGE * PAGE;
            nwsec++;
        }
}

void drv_register(const OpDef *ops) { tables[ntables++] = ops; }

static void die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "driver error: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    _exit(3);
}

void Fail(Ctx *c, const char *what, const char *detail)
{
    if (!c->failed) {
        c->failed = 1;
        c->fails++;
        if (c->fails <= verbose_fail_limit) {
            pthread_mutex_lock(&outlock);
            printf("MISMATCH bid=%ld step=%ld op=%s %s %s\n", c->bid, c->step, c->op, what, detail ? detail : "");
            fflush(stdout);
            pthread_mutex_unlock(&outlock);
        }
    }
}

static void on_signal(int sig, siginfo_t *si, void *uc)
{
    char buf[300];
    Ctx *c = cur;
    int n = snprintf(buf, sizeof buf, "CRASH signal=%d bid=%ld step=%ld op=%s addr=%p\n", sig, c ? c->bid : -1, c ? c->step : -1,
                     c ? c->op : "?", si ? si->si_addr : 0);
#ifdef __x86_64__
    if (nwsec && c && (sig == SIGSEGV || sig == SIGTRAP)) {
        ucontext_t *u = uc;
        int k;
        if (sig == SIGTRAP) {           /* the store has been done */
            u->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
            watch_compare();
            watch_protect(PROT_READ);
            return;
        }
        for (k = 0; k < nwsec; k++)
            if ((uintptr_t)si->si_addr >= wsec[k].pa && (uintptr_t)si->si_addr < wsec[k].pe) {
                watch_protect(PROT_READ | PROT_WRITE);
                if ((uint8_t *)si->si_addr + 64 > wsec[k].a && (uint8_t *)si->si_addr < wsec[k].e) wstores++;
                u->uc_mcontext.gregs[REG_EFL] |= 0x100;
                return;
            }
    }
#endif
    (void)uc;
    if (write(1, buf, n) < 0) { }
    _exit(1);
}

/* ---- guarded memory ---- */
static Region *region(Ctx *c, size_t n)
{
    size_t need = (n + PAGE - 1) / PAGE * PAGE;
    Region *r;
    if (need < 2 * PAGE) need = 2 * PAGE;
    for (r = c->pool; r; r = r->next)
        if (!r->used && r->size >= need && r->size <= 4 * need) break;
    if (!r) {
        r = calloc(1, sizeof *r);
        r->size = need;
        uint8_t *m = mmap(0, need + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) die("mmap %zu", need);
        r->base = m + PAGE;
        if (mprotect(r->base, need, PROT_READ | PROT_WRITE)) die("mprotect");
        r->next = c->pool;
        c->pool = r;
    } else if (r->ro) {
        if (mprotect(r->base, r->size, PROT_READ | PROT_WRITE)) die("mprotect");
    }
    r->ro = 0;
    r->used = 1;
    return r;
}

static unsigned mix(Ctx *c, unsigned k)
{
    unsigned x = (unsigned)c->bid * 2654435761u + (unsigned)c->step * 40503u + k * 9176u + c->mode * 77003u;
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
    return x;
}

/* where in the region the n bytes go: flush with the end, flush with the start, or somewhere in between */
static uint8_t *place(Ctx *c, Region *r, size_t n, unsigned k)
{
    unsigned h = mix(c, k);
    size_t room = r->size - n;
    if (c->mode >= 8) return /* one alignment after the other */ r->base + (c->mode + k * 3) % 64 % (room + 1);
    if (c->mode == 1) return r->base + room;
    if (c->mode == 2) return r->base;
    switch (h % 3) {
    case 0: return r->base + room;
    case 1: return r->base;
    default: return r->base + ((h >> 3) % 97 < room ? (h >> 3) % 97 : room);
    }
}

static void canary_fill(Region *r, uint8_t *p, size_t n)
{
    size_t i, a = p > r->base + 256 ? (size_t)(p - r->base) - 256 : 0, e = (p - r->base) + n;
    for (i = a; i < (size_t)(p - r->base); i++) r->base[i] = CANARY(i);
    for (i = e; i < r->size && i < e + 256; i++) r->base[i] = CANARY(i);
}

static int canary_ok(Region *r, uint8_t *p, size_t n)
{
    size_t i, a = p > r->base + 256 ? (size_t)(p - r->base) - 256 : 0, e = (p - r->base) + n;
    for (i = a; i < (size_t)(p - r->base); i++) if (r->base[i] != CANARY(i)) return 0;
    for (i = e; i < r->size && i < e + 256; i++) if (r->base[i] != CANARY(i)) return 0;
    return 1;
}

static Buf *newbuf(Ctx *c, size_t n, int kind)
{
    Buf *b;
    if (c->nbufs >= MAXBUFS) die("too many buffers in op %s", c->op);
    b = &c->bufs[c->nbufs++];
    b->reg = region(c, n);
    b->n = n;
    b->kind = kind;
    b->base = 0;
    b->copy = 0;
    b->p = place(c, b->reg, n, c->nbufs);
    canary_fill(b->reg, b->p, n);
    return b;
}

/* ---- data ---- */
static uint8_t genbyte(long seed, unsigned long long i)
{
    unsigned long long m, t;
    if (seed == 0) return 0;
    if (seed == 1) return 255;
    m = ((unsigned long long)(seed % 100003) * 7919 + 12345) % 32749 + 1;
    t = ((i % 65521) + 1) * m;
    return (uint8_t)(t / 257 + (t / 65536) * 3 + i / 251 + (t % 251) * (i % 13 + 1));
}

static int hexv(char ch) { return ch <= '9' ? ch - '0' : ch - 'a' + 10; }

static size_t vlen(const char *v)
{
    if (v[0] == 'g') {
        const char *p = strrchr(v, ':');
        const char *e = strpbrk(v, ",]");
        if (e) { p = e; while (*p != ':') p--; }
        return strtoull(p + 1, 0, 10);
    }
    if (v[0] == 'c') {                  /* a run through a period: c<seed>:<period>:<offset>:<periods>:<rest> */
        unsigned long s_, T, o, q, r;
        if (sscanf(v, "c%lu:%lu:%lu:%lu:%lu", &s_, &T, &o, &q, &r) != 5) die("bad data %s", v);
        return (size_t)q * T + r;
    }
    if (v[0] == 'x') return strspn(v + 1, "0123456789abcdef") / 2;
    die("bad data %s", v);
    return 0;
}

static void vdata(const char *v, uint8_t *dst, size_t n)
{
    size_t i;
    if (v[0] == 'g') {
        long seed = atol(v + 1);
        unsigned long long off = strtoull(strchr(v, ':') + 1, 0, 10);
        for (i = 0; i < n; i++) dst[i] = genbyte(seed, off + i);
    } else
        for (i = 0; i < n; i++) dst[i] = hexv(v[1 + 2 * i]) * 16 + hexv(v[2 + 2 * i]);
}

static void split_run(const char *v, unsigned long *seed, unsigned long *T, unsigned long *o)
{
    sscanf(v, "c%lu:%lu:%lu", seed, T, o);
}
/* ---- data longer than memory: one file mapped again and again ---- */
#if defined(__x86_64__) && defined(__linux__)
#define HUGE_OUT ((size_t)1 << 26)
static struct { long seed; size_t T; int fd; } periods[64];
static int nperiods;
static pthread_mutex_t perlock = PTHREAD_MUTEX_INITIALIZER;
static int period(long seed, size_t T)
{
    int k, fd;
    size_t i;
    uint8_t *m;
    pthread_mutex_lock(&perlock);
    for (k = 0; k < nperiods; k++) if (periods[k].seed == seed && periods[k].T == T) { pthread_mutex_unlock(&perlock); return periods[k].fd; }
    fd = memfd_create("xk", 0);
    if (fd < 0 || ftruncate(fd, T)) die("memfd");
    m = mmap(0, T, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) die("mmap");
    if (seed >= 0) for (i = 0; i < T; i++) m[i] = genbyte(seed, i);
    munmap(m, T);
    if (seed >= 0 && nperiods < 64) { periods[nperiods].seed = seed; periods[nperiods].T = T; periods[nperiods++].fd = fd; }
    pthread_mutex_unlock(&perlock);
    return fd;
}
/* n bytes from offset o of the repeated file, with inaccessible pages around; flush with the end if that falls on a page */
static uint8_t *repeated(Ctx *c, int fd, size_t T, size_t o, size_t n, int prot)
{
    size_t total = (o + n + PAGE - 1) / PAGE * PAGE, k;
    uint8_t *m = mmap(0, total + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Buf *b;
    if (m == MAP_FAILED || T % PAGE) die("mmap of %zu", total);
    for (k = 0; k < total; k += T)
        if (mmap(m + PAGE + k, total - k < T ? total - k : T, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap at %zu: %d", k, errno);
    b = &c->bufs[c->nbufs++];
    memset(b, 0, sizeof *b);
    b->base = m; b->total = total + 2 * PAGE; b->n = n; b->kind = 3;
    return b->p = m + PAGE + o;
}
static uint8_t *real_memory(Ctx *c, size_t n, int kind)
{
    size_t total = (n + PAGE - 1) / PAGE * PAGE;
    uint8_t *m = mmap(0, total + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Buf *b;
    if (m == MAP_FAILED || mprotect(m + PAGE, total, PROT_READ | PROT_WRITE)) die("mmap of %zu", total);
    b = &c->bufs[c->nbufs++];
    memset(b, 0, sizeof *b);
    b->base = m; b->total = total + 2 * PAGE; b->n = n; b->kind = kind;
    return b->p = m + PAGE + total - n;
}
static const uint8_t *huge_in(Ctx *c, const char *v, size_t *n)
{
    unsigned long seed, T, o;
    size_t len;
    if (c->nbufs >= MAXBUFS) die("too many buffers");
    len = vlen(v);
    split_run(v, &seed, &T, &o);
    if (n) *n = len;
    return repeated(c, period(seed, T), T, o, len, PROT_READ);
}
static uint8_t *huge_out(Ctx *c, size_t n, int keep, int real)
{
    uint8_t *p;
    int fd;
    if (c->nbufs >= MAXBUFS) die("too many buffers");
    if (keep || real) return real_memory(c, n, keep ? 4 : 3);
    fd = period(-1, (size_t)1 << 22);
    p = repeated(c, fd, (size_t)1 << 22, 4096 - n % 4096, n, PROT_READ | PROT_WRITE);
    close(fd);
    return p;
}
static void drop_kept(Ctx *c)
{
    if (c->keptbase) munmap(c->keptbase, c->kepttotal); else free(c->kept);
    c->kept = c->keptbase = 0;
}
static int huge_end(Ctx *c, Buf *b)
{
    if (b->kind == 4) {
        drop_kept(c);
        c->kept = b->p; c->keptn = b->n; c->keptbase = b->base; c->kepttotal = b->total;
    } else if (b->kind == 3) munmap(b->base, b->total);
    return b->kind >= 3;
}
#else
#define HUGE_OUT ((size_t)-1)
static const uint8_t *huge_in(Ctx *c, const char *v, size_t *n) { die("no mapped data here"); return 0; }
static uint8_t *huge_out(Ctx *c, size_t n, int keep, int real) { return 0; }
static uint8_t *real_memory(Ctx *c, size_t n, int kind) { return 0; }
static void drop_kept(Ctx *c) { free(c->kept); c->kept = 0; }
static int huge_end(Ctx *c, Buf *b) { return 0; }
#endif
static void fill(const char *v, uint8_t *dst, size_t n)
{
    if (v[0] == 'c') {
        unsigned long seed = 0, T = 1, o = 0;
        size_t i, k;
        split_run(v, &seed, &T, &o);
        for (i = 0; i < n && i < T; i++) dst[i] = genbyte(seed, (o + i) % T);
        for (; i < n; i += k) { k = n - i < T ? n - i : T; memcpy(dst + i, dst, k); }
    } else
        vdata(v, dst, n);
}

/* ---- arguments ---- */
static const char *find(Ctx *c, const char *key)
{
    int i;
    for (i = 0; i < c->nargs; i++) if (!strcmp(c->args[i].key, key)) return c->args[i].val;
    return 0;
}
int has(Ctx *c, const char *key) { return find(c, key) != 0; }
const char *S(Ctx *c, const char *key)
{
    const char *v = find(c, key);
    if (!v) die("bid %ld step %ld op %s: no %s", c->bid, c->step, c->op, key);
    return v;
}
long long I(Ctx *c, const char *key) { return atoll(S(c, key)); }
long long Idef(Ctx *c, const char *key, long long def) { const char *v = find(c, key); return v ? atoll(v) : def; }
size_t Dlen(Ctx *c, const char *key)
{
    /* where the specification gives only the end of an output: outn= bytes, the last ones tail= */
    if (!strcmp(key, "out") && has(c, "outn")) return strtoull(S(c, "outn"), 0, 10);
    return vlen(S(c, key));
}

const uint8_t *InVal(Ctx *c, const char *v, size_t *n)
{
    size_t len;
    Buf *b;
    if (v[0] == 'p') {                  /* prev: what an earlier call gave out */
        if (!c->kept) die("nothing kept");
        if (n) *n = c->keptn;
        return c->kept;
    }
    len = vlen(v);
    if (len >= HUGE_OUT) return huge_in(c, v, n);
    b = newbuf(c, len, 0);
    fill(v, b->p, len);
    b->copy = malloc(len + 1);
    memcpy(b->copy, b->p, len);
    if (n) *n = len;
    if (mprotect(b->reg->base, b->reg->size, PROT_READ)) die("mprotect");
    b->reg->ro = 1;
    if (len == 0 && mix(c, 500 + c->nbufs) % 3 == 0) return 0;      /* nothing there: no pointer needed */
    return b->p;
}
const uint8_t *In(Ctx *c, const char *key, size_t *n) { return InVal(c, S(c, key), n); }
uint8_t *InOut(Ctx *c, const char *key, size_t *n)
{
    const char *v = S(c, key);
    size_t len = vlen(v);
    Buf *b;
    if (n) *n = len;
    if (len >= HUGE_OUT) {
        uint8_t *p = real_memory(c, len, 3);
        fill(v, p, len);
        return p;
    }
    b = newbuf(c, len, 2);
    fill(v, b->p, len);
    return b->p;
}
uint8_t *Out(Ctx *c, size_t n)
{
    Buf *b;
    size_t i;
    if (n >= HUGE_OUT) return huge_out(c, n, has(c, "keep"), has(c, "mem"));
    b = newbuf(c, n, 1);
    for (i = 0; i < n; i++) b->p[i] = (uint8_t)(0x5A + i * 7);
    POISON(b->p, n);
    return b->p;
}
int nlist(Ctx *c, const char *key)
{
    const char *v = S(c, key);
    int n = 0;
    if (v[0] == 'x') return 0;          /* the empty sequence */
    if (v[0] != '[') die("not a list %s", v);
    if (v[1] == ']') return 0;
    for (n = 1; *v; v++) if (*v == ',') n++;
    return n;
}
const uint8_t *InList(Ctx *c, const char *key, int k, size_t *n)
{
    const char *v = S(c, key) + 1;
    while (k--) v = strchr(v, ',') + 1;
    return InVal(c, v, n);
}

/* ---- instances ---- */
void *Ob(Ctx *c, const char *type, size_t size, size_t align)
{
    int s = (int)Idef(c, "i", 1) - 1, k;
    Obj *o;
    size_t j, room;
    if (s < 0 || s >= MAXSLOTS) die("slot");
    for (k = 0; k < c->nobj[s]; k++) if (!strcmp(c->obj[s][k].type, type)) return c->obj[s][k].p;
    if (k >= 24) die("too many types");
    o = &c->obj[s][k];
    c->nobj[s]++;
    o->type = type;
    o->n = size;
    o->reg = region(c, size + align);
    room = o->reg->size - size;
    if (mix(c, 1000 + s) % 2) room = room / align * align; else room = 0;
    o->p = o->reg->base + room;
    for (j = 0; j < size; j++) o->p[j] = (uint8_t)(0xA7 + 13 * j + c->bid);   /* garbage before initialization */
    canary_fill(o->reg, o->p, size);
    POISON(o->p, size);
    return o->p;
}

static Obj *existing(Ctx *c, int s, const char *type)
{
    int k;
    for (k = 0; k < c->nobj[s]; k++) if (!strcmp(c->obj[s][k].type, type)) return &c->obj[s][k];
    return 0;
}

/* ---- checks ---- */
void Rc(Ctx *c, long long rc)
{
    char t[80];
    if (has(c, "rc") && I(c, "rc") != rc) {
        snprintf(t, sizeof t, "expected %lld got %lld", I(c, "rc"), rc);
        Fail(c, "return-code", t);
    }
}
void EqI(Ctx *c, const char *key, long long got)
{
    char t[80];
    if (I(c, key) != got) {
        snprintf(t, sizeof t, "%s expected %lld got %lld", key, I(c, key), got);
        Fail(c, "value", t);
    }
}
void Eq(Ctx *c, const char *key, const uint8_t *got, size_t n)
{
    const char *v;
    size_t len, i;
    uint8_t *e;
    if (!strcmp(key, "out") && has(c, "outn")) {
        len = Dlen(c, key);
        v = S(c, "tail");
        if (len == n) { len = vlen(v); got += n - len; n = len; }
    } else {
        v = S(c, key);
        len = vlen(v);
    }
    if (len != n) {
        char t[80];
        snprintf(t, sizeof t, "%s expected %zu bytes, driver has %zu", key, len, n);
        Fail(c, "length", t);
        return;
    }
    if (v[0] == 'c') {
        unsigned long seed = 0, T = 1, o = 0;
        size_t k;
        split_run(v, &seed, &T, &o);
        e = malloc(T);
        for (i = 0; i < T; i++) e[i] = genbyte(seed, (o + i) % T);
        for (i = 0; i < n; i += k) {
            k = n - i < T ? n - i : T;
            if (memcmp(e, got + i, k)) { Fail(c, "output", "differs from the long string expected"); break; }
        }
        free(e);
        return;
    }
    if (!DEFINED(got, n)) { Fail(c, "output", "depends on undefined memory"); UNPOISON(got, n); return; }
    e = malloc(n + 1);
    vdata(v, e, n);
    if (memcmp(e, got, n)) {
        char t[200];
        for (i = 0; i < n && e[i] == got[i]; i++);
        snprintf(t, sizeof t, "%s differs at byte %zu of %zu: expected %02x got %02x", key, i, n, e[i], got[i]);
        Fail(c, "output", t);
    }
    free(e);
}
void Unwritten(Ctx *c, const uint8_t *p, size_t n)
{
    size_t i;
    UNPOISON(p, n);
    for (i = 0; i < n; i++) if (p[i] != (uint8_t)(0x5A + i * 7)) { Fail(c, "output", "a refused call wrote output"); return; }
}

static void end_of_call(Ctx *c)
{
    int k, s;
    for (k = 0; k < c->nbufs; k++) {
        Buf *b = &c->bufs[k];
        if (huge_end(c, b)) continue;
        if (b->copy) {
            if (memcmp(b->copy, b->p, b->n)) Fail(c, "input-modified", 0);
            free(b->copy);
            b->copy = 0;
        }
        if (b->kind == 1 && b->n > 64 && has(c, "keep")) {
            drop_kept(c);
            c->keptn = b->n;
            c->kept = malloc(b->n);
            memcpy(c->kept, b->p, b->n);
        }
        UNPOISON(b->p, b->n);
        if (!canary_ok(b->reg, b->p, b->n)) Fail(c, "wrote-outside-buffer", b->kind == 0 ? "(near an input)" : "(near an output)");
        b->reg->used = 0;
    }
    c->nbufs = 0;
    for (s = 0; s < MAXSLOTS; s++)
        for (k = 0; k < c->nobj[s]; k++)
            if (!canary_ok(c->obj[s][k].reg, c->obj[s][k].p, c->obj[s][k].n)) {
                Fail(c, "wrote-outside-instance", c->obj[s][k].type);
                canary_fill(c->obj[s][k].reg, c->obj[s][k].p, c->obj[s][k].n);
            }
}

/* ---- the run ---- */
static void reset(Ctx *c)
{
    int s, k;
    for (s = 0; s < MAXSLOTS; s++) {
        for (k = 0; k < c->nobj[s]; k++) { UNPOISON(c->obj[s][k].p, c->obj[s][k].n); c->obj[s][k].reg->used = 0; }
        c->nobj[s] = 0;
    }
    c->failed = 0;
}

static void op_clone(Ctx *c)
{
    /* clone all instances of slot i into slot j */
    int s = (int)I(c, "i") - 1, t = (int)I(c, "j") - 1, k;
    c->user[t] = c->user[s];
    for (k = 0; k < c->nobj[s]; k++) {
        Obj *o = &c->obj[s][k], *q = existing(c, t, o->type);
        if (!q) {
            char save[8];
            int a;
            for (a = 0; a < c->nargs; a++) if (!strcmp(c->args[a].key, "i")) break;
            snprintf(save, sizeof save, "%d", t + 1);
            const char *old = c->args[a].val;
            c->args[a].val = save;
            Ob(c, o->type, o->n, 64);
            c->args[a].val = old;
            q = existing(c, t, o->type);
        }
        memcpy(q->p, o->p, o->n);
    }
}

static void run_line(Ctx *c, char *line)
{
    /* "bid step op k=v k=v ..." */
    char *p = line, *sp;
    long bid = strtol(p, &p, 10), step = strtol(p, &p, 10);
    int t, i;
    if (bid != c->bid) { reset(c); c->bid = bid; }
    c->step = step;
    while (*p == ' ') p++;
    sp = p + strcspn(p, " \n");
    snprintf(c->op, sizeof c->op, "%.*s", (int)(sp - p), p);
    p = sp;
    c->nargs = 0;
    for (;;) {
        char *eq;
        while (*p == ' ') p++;
        if (*p == 0 || *p == '\n') break;
        sp = p + strcspn(p, " \n");
        eq = memchr(p, '=', sp - p);
        if (!eq || c->nargs >= MAXARGS) die("bad line at bid %ld step %ld", bid, step);
        *eq = 0;
        c->args[c->nargs].key = p;
        c->args[c->nargs++].val = eq + 1;
        p = sp;
        if (*p) *p++ = 0; else break;
        /* if the separator was the newline we are done */
    }
    if (c->failed) return;
    c->calls++;
    if (!strcmp(c->op, "clone")) { op_clone(c); return; }
    for (t = 0; t < ntables; t++)
        for (i = 0; tables[t][i].name; i++)
            if (!strcmp(tables[t][i].name, c->op)) {
                if (nwsec) watch_protect(PROT_READ);
                tables[t][i].fn(c);
                if (nwsec) {
                    watch_protect(PROT_READ | PROT_WRITE);
                    watch_compare();
                    if (wbad) { Fail(c, "static-data", "the call keeps state in static data of the library"); wbad = 0; }
                }
                end_of_call(c);
                return;
            }
    die("unknown op %s", c->op);
}

typedef struct { int threads, id, inter; unsigned mode; long fails, calls; } Job;
static char **g_lines;
static long g_nlines;
static long *g_start;      /* first line of each behaviour */
static long g_nb;
static long last_line(long b) { return b + 1 < g_nb ? g_start[b + 1] : g_nlines; }

/* `inter` contexts per thread, each going through its share of the behaviours; calls of different contexts alternate */
static void *worker(void *arg)
{
    Job *j = arg;
    int total = j->threads * j->inter, live = 0, k;
    unsigned h = 12345u + 977u * j->id;
    struct { Ctx c; long b, l; } *x = calloc(j->inter, sizeof *x);
    for (k = 0; k < j->inter; k++) {
        x[k].c.bid = -1;
        x[k].c.mode = j->mode;
        x[k].b = (long)j->id * j->inter + k;
        x[k].l = x[k].b < g_nb ? g_start[x[k].b] : 0;
        live += x[k].b < g_nb;
    }
    while (live) {
        char *copy;
        h = h * 1664525u + 1013904223u;
        for (k = (h >> 10) % j->inter; x[k].b >= g_nb; k = (k + 1) % j->inter);
        cur = &x[k].c;
        copy = strdup(g_lines[x[k].l]);
        run_line(&x[k].c, copy);
        free(copy);
        if (++x[k].l == last_line(x[k].b)) {
            x[k].b += total;
            if (x[k].b < g_nb) x[k].l = g_start[x[k].b]; else live--;
        }
    }
    for (k = 0; k < j->inter; k++) { j->fails += x[k].c.fails; j->calls += x[k].c.calls; }
    return 0;
}

int main(int argc, char **argv)
{
    const char *file = 0;
    int threads = 1, inter = 1, i, seconds = 600;
    unsigned mode = 0;
    struct sigaction sa;
    size_t cap = 1 << 16;
    char *buf = 0;
    size_t bl = 0;
    FILE *f;
    long fails = 0, calls = 0, last = -1;
    Job *jobs;
    pthread_t *th;

    PAGE = (size_t)sysconf(_SC_PAGESIZE);
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-j")) threads = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-i")) inter = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-s")) watch = 1;
        else if (!strcmp(argv[i], "-m")) mode = (unsigned)atoi(argv[++i]);
        else if (!strcmp(argv[i], "-t")) seconds = atoi(argv[++i]);
        else file = argv[i];
    }
    if (!file) die("no file");
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO;
    {
        static uint8_t alt[65536];
        stack_t ss; memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt; ss.ss_size = sizeof alt;
        sigaltstack(&ss, 0);
        sa.sa_flags |= SA_ONSTACK;
    }
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0);
    sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
    sigaction(SIGTRAP, &sa, 0);
    alarm(seconds);
    f = strcmp(file, "-") ? fopen(file, "r") : stdin;
    if (!f) die("open %s", file);
    g_lines = malloc(cap * sizeof *g_lines);
    g_start = malloc(cap * sizeof *g_start);
    while (getline(&buf, &bl, f) > 0) {
        long bid;
        if ((size_t)g_nlines + 1 >= cap) {
            cap *= 2;
            g_lines = realloc(g_lines, cap * sizeof *g_lines);
            g_start = realloc(g_start, cap * sizeof *g_start);
        }
        bid = atol(buf);
        if (bid != last) { g_start[g_nb++] = g_nlines; last = bid; }
        g_lines[g_nlines++] = strdup(buf);
    }
    jobs = calloc(threads, sizeof *jobs);
    th = calloc(threads, sizeof *th);
    for (i = 0; i < threads; i++) {
        jobs[i].threads = threads;
        jobs[i].id = i;
        jobs[i].inter = inter;
        jobs[i].mode = mode;
    }
    if (watch) watch_start();
    if (threads == 1) worker(&jobs[0]);
    else {
        for (i = 0; i < threads; i++) pthread_create(&th[i], 0, worker, &jobs[i]);
        for (i = 0; i < threads; i++) pthread_join(th[i], 0);
    }
    for (i = 0; i < threads; i++) { fails += jobs[i].fails; calls += jobs[i].calls; }
    if (watch) printf("WATCHED sections=%d stores=%lu\n", nwsec, wstores);
    printf("REPLAYED behaviours=%ld calls=%ld failed=%ld\n", g_nb, calls, fails);
    return fails ? 1 : 0;
}
