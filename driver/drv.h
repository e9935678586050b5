/* Replays behaviours of the TLA+ specification on the real library, call by call. */
#ifndef DRV_H
#define DRV_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

#define MAXARGS 40
#define MAXSLOTS 8
#define MAXBUFS 64

typedef struct Region Region;
typedef struct {
    const char *key;
    const char *val;
} Arg;

typedef struct {            /* a guarded buffer handed to the library */
    Region *reg;
    uint8_t *p;
    size_t n;
    int kind;               /* 0 input, 1 output, 2 in/out; 3: mapped for this call, 4: kept in the context */
    uint8_t *base; size_t total;
    uint8_t *copy;          /* content at the call, for inputs */
} Buf;

typedef struct {            /* an instance of some structure type, in guarded memory */
    const char *type;
    Region *reg;
    uint8_t *p;
    size_t n;
} Obj;

typedef struct Ctx {
    long bid, step;
    char op[32];
    Arg args[MAXARGS];
    int nargs;
    Buf bufs[MAXBUFS];
    int nbufs;
    Obj obj[MAXSLOTS][24];
    int nobj[MAXSLOTS];
    char curtype[MAXSLOTS][16];
    Region *pool;
    int failed;             /* this behaviour failed */
    long fails;             /* total */
    long calls;
    unsigned mode;          /* buffer placement mode */
    char *msg; size_t msglen;
    long hist;              /* counters */
    int user[MAXSLOTS];     /* free for the operations */
    uint8_t *kept, *keptbase; size_t keptn, kepttotal;   /* output of an earlier call, for calls with `prev' */
} Ctx;

typedef void (*OpFn)(Ctx *);
typedef struct { const char *name; OpFn fn; } OpDef;
void drv_register(const OpDef *ops);        /* table ends with a null name */

/* arguments */
int has(Ctx *c, const char *key);
long long I(Ctx *c, const char *key);       /* fails the run if missing */
long long Idef(Ctx *c, const char *key, long long def);
const char *S(Ctx *c, const char *key);
size_t Dlen(Ctx *c, const char *key);       /* length of a data argument */
const uint8_t *In(Ctx *c, const char *key, size_t *n);     /* data argument, in guarded read-only memory */
const uint8_t *InVal(Ctx *c, const char *val, size_t *n);  /* same from the value */
uint8_t *InOut(Ctx *c, const char *key, size_t *n);        /* writable guarded copy (in-place calls) */
uint8_t *Out(Ctx *c, size_t n);             /* guarded output buffer */
int nlist(Ctx *c, const char *key);
const uint8_t *InList(Ctx *c, const char *key, int k, size_t *n);

/* instances */
void *Ob(Ctx *c, const char *type, size_t size, size_t align);   /* instance of slot i= of this type */

/* checks: call after the library call */
void Rc(Ctx *c, long long rc);              /* against rc= */
void Eq(Ctx *c, const char *key, const uint8_t *got, size_t n);  /* against the expected bytes, e.g. out= */
void EqI(Ctx *c, const char *key, long long got);
void Unwritten(Ctx *c, const uint8_t *p, size_t n);   /* output buffer was not written */
void Fail(Ctx *c, const char *what, const char *detail);

#define OBJ(c, T) ((T *)Ob(c, #T, sizeof(T), __alignof__(T)))
#endif
