// gxmem: the memory oracle for the C and Python interfaces.
//
// Preloaded into a driver process. While a thread has `gx_in` set (it is in a call into the
// library) every one of its allocations comes from a private arena in which nothing is reused: each
// block has guard bytes on both sides, fresh blocks are filled with junk and released blocks
// with poison. Everything else goes to the C library's allocator.
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define ARENA ((size_t)1 << 36)
#define ONE_MAX ((size_t)256 << 20)
#define BIG ((size_t)1 << 20)
#define BLOCKS ((size_t)1 << 23)
#define FRONT 32
#define REAR 16

enum { LIVE = 1, FREED = 2 };
typedef struct {
    uint8_t *p;
    size_t size;
    int state;
} Block;

__thread volatile int gx_in __attribute__((tls_model("initial-exec")));
static uint8_t *base, *cur;
static Block *blocks;
static size_t nblocks, first_block, live_blocks, live_bytes, kept;
static char error[400];

static volatile int busy;

static void lock(void) {
    while (__sync_lock_test_and_set(&busy, 1))
        sched_yield();
}
static void unlock(void) { __sync_lock_release(&busy); }

static void report(const char *what, const void *p, size_t size) {
    if (!error[0])
        snprintf(error, sizeof error, "%s (block of %zu bytes%s)", what, size,
                 p ? "" : ", null");
}

static int setup(void) {
    if (base)
        return 1;
    uint8_t *b = mmap(NULL, ARENA, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Block *t = mmap(NULL, BLOCKS * sizeof *t, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED || t == MAP_FAILED)
        return 0;
    blocks = t;
    cur = base = b;
    return 1;
}

static int ours(const void *p) {
    return base && (uint8_t *)p >= base && (uint8_t *)p < base + ARENA;
}

static void *take_locked(size_t size, size_t align) {
    if (!setup() || size > ONE_MAX || nblocks == BLOCKS)
        return NULL;
    if (align < 16)
        align = 16;
    uintptr_t a = ((uintptr_t)cur + FRONT + align - 1) / align * align;
    uint8_t *p = (uint8_t *)a;
    if (p + size + REAR + 64 > base + ARENA)
        return NULL;
    memset(p - FRONT, 0xFA, FRONT - 8);
    uint64_t idx = nblocks;
    memcpy(p - 8, &idx, 8);
    memset(p, 0xCB, size < BIG ? size : BIG);
    memset(p + size, 0xFB, REAR);
    cur = p + size + REAR;
    blocks[nblocks++] = (Block){p, size, LIVE};
    live_blocks++;
    live_bytes += size;
    return p;
}

static Block *find(void *p) {
    uint64_t idx;
    if ((uint8_t *)p < base + FRONT)
        return NULL;
    memcpy(&idx, (uint8_t *)p - 8, 8);
    if (idx < nblocks && blocks[idx].p == p)
        return &blocks[idx];
    for (size_t i = 0; i < nblocks; i++)
        if (blocks[i].p == p)
            return &blocks[i];
    return NULL;
}

static void guards(Block *b) {
    uint64_t idx = (uint64_t)(b - blocks), got;
    memcpy(&got, b->p - 8, 8);
    int bad = got != idx;
    for (int i = FRONT; i > 8; i--)
        bad |= b->p[-i] != 0xFA;
    if (bad)
        report("memory before a block was overwritten", b->p, b->size);
    for (int i = 0; i < REAR; i++)
        if (b->p[b->size + i] != 0xFB) {
            report("memory after a block was overwritten", b->p, b->size);
            break;
        }
}

static void give_locked(void *p) {
    Block *b = find(p);
    if (!b) {
        report("release of a pointer that is not the start of a block", p, 0);
        return;
    }
    if (b->state == FREED) {
        report("double release", p, b->size);
        return;
    }
    guards(b);
    b->state = FREED;
    if ((size_t)(b - blocks) < first_block)
        kept--;
    else {
        live_blocks--;
        live_bytes -= b->size;
    }
    if (b->size <= BIG)
        memset(b->p, 0xDD, b->size);
    else {
        uintptr_t s = ((uintptr_t)b->p + 4095) & ~(uintptr_t)4095;
        uintptr_t e = ((uintptr_t)b->p + b->size) & ~(uintptr_t)4095;
        if (e > s)
            madvise((void *)s, e - s, MADV_DONTNEED);
    }
}

static void *take(size_t size, size_t align) {
    lock();
    void *p = take_locked(size, align);
    unlock();
    return p;
}

static void give(void *p) {
    lock();
    give_locked(p);
    unlock();
}

static Block *lookup(void *p) {
    lock();
    Block *b = find(p);
    unlock();
    return b;
}

// Checks all guard bytes and that released memory was not written to.
void gx_check(void) {
    for (size_t i = first_block; i < nblocks; i++) {
        Block *b = &blocks[i];
        guards(b);
        if (b->state == FREED && b->size <= BIG)
            for (size_t k = 0; k < b->size; k++)
                if (b->p[k] != 0xDD) {
                    report("write to released memory", b->p, b->size);
                    break;
                }
    }
}

// Starts afresh behind the last block that is still live; such blocks are forgotten about but stay
// untouched.
void gx_reset(void) {
    if (!setup())
        return;
    lock();
    error[0] = 0;
    kept += live_blocks;
    live_blocks = 0;
    live_bytes = 0;
    size_t n = kept ? nblocks : 0;
    while (n > 0 && blocks[n - 1].state != LIVE)
        n--;
    uint8_t *end = n ? blocks[n - 1].p + blocks[n - 1].size + REAR : base;
    if (cur - end > (16 << 20)) {
        uintptr_t s = ((uintptr_t)end + 4095) & ~(uintptr_t)4095;
        madvise((void *)s, (size_t)(cur - (uint8_t *)s), MADV_DONTNEED);
    }
    cur = end;
    nblocks = first_block = n;
    unlock();
    if (nblocks > BLOCKS / 2) {
        fprintf(stderr, "gxmem: out of blocks\n");
        _Exit(2);
    }
}

size_t gx_live_blocks(void) { return live_blocks; }
size_t gx_live_bytes(void) { return live_bytes; }
const char *gx_error(void) { return error; }
int gx_is_live(const void *p, size_t size) {
    if (!ours(p))
        return 0;
    Block *b = lookup((void *)p);
    return b && b->state == LIVE && b->size >= size;
}

void *malloc(size_t n) { return gx_in ? take(n, 16) : __libc_malloc(n); }

void *calloc(size_t a, size_t b) {
    if (!gx_in)
        return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return NULL;
    void *p = take(n, 16);
    if (p)
        memset(p, 0, n);
    return p;
}

void free(void *p) {
    if (!p)
        return;
    if (ours(p))
        give(p);
    else if (gx_in)
        report("release of memory the library does not own", p, 0);
    else
        __libc_free(p);
}

void *realloc(void *p, size_t n) {
    if (!p)
        return malloc(n);
    if (!ours(p)) {
        if (gx_in) {
            report("resizing of memory the library does not own", p, 0);
            return NULL;
        }
        return __libc_realloc(p, n);
    }
    Block *b = lookup(p);
    if (!b || b->state != LIVE) {
        report("resizing of memory that is not live", p, b ? b->size : 0);
        return NULL;
    }
    void *q = take(n, 16);
    if (!q)
        return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    give(p);
    return q;
}

void *memalign(size_t a, size_t n) { return gx_in ? take(n, a) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **out, size_t a, size_t n) {
    void *p = memalign(a, n);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
