// pyfwd: stands between the Python package and the real shared library.
//
// Exports every function of gphrx.h. Each call is passed on with `gx_in` set, so that the
// library's allocations come from the guarding arena (gxmem.c), and every handle, list, text
// and buffer crossing the border is recorded: releases must match a live object of the same
// kind and length, and a handle must not be used after its release.
#define _GNU_SOURCE
#include "abi.h"
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern __thread volatile int gx_in __attribute__((tls_model("initial-exec"))); // gxmem.c, preloaded
extern void gx_check(void), gx_reset(void);
extern size_t gx_live_blocks(void);
extern const char *gx_error(void);
void gxf_check(void) { gx_check(); }
void gxf_reset_memory(void) { gx_reset(); }
size_t gxf_live_blocks(void) { return gx_live_blocks(); }
const char *gxf_memory_error(void) { return gx_error(); }

enum kind { GRAPH = 1, COMPRESSED, MATRIX, TEXT, BYTES, EDGES, VERTICES, ENTRIES };
static const char *names[] = {"", "graph", "compressed graph", "matrix", "text",
                              "byte buffer", "edge list", "vertex list", "entry list"};
typedef struct {
    const void *p;
    size_t len;
    int kind;
} Rec;

static Rec *recs;
static size_t nrecs, cap, made, released;
static char err[400];
static void *lib;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;

static void *real(const char *name) {
    if (!lib) {
        lib = dlopen(getenv("GX_REAL_LIB"), RTLD_NOW | RTLD_LOCAL);
        if (!lib) {
            fprintf(stderr, "pyfwd: %s\n", dlerror());
            _Exit(2);
        }
    }
    void *f = dlsym(lib, name);
    if (!f) {
        fprintf(stderr, "pyfwd: %s\n", dlerror());
        _Exit(2);
    }
    return f;
}

const char *gxf_error(void) { return err; }
size_t gxf_live(void) { return nrecs; }
size_t gxf_made(void) { return made; }
size_t gxf_released(void) { return released; }
void gxf_reset(void) { nrecs = made = released = 0; err[0] = 0; }
void gxf_describe_live(char *out, size_t n) {
    out[0] = 0;
    for (size_t i = 0; i < nrecs && strlen(out) + 64 < n; i++)
        sprintf(out + strlen(out), "%s%s", i ? ", " : "", names[recs[i].kind]);
}

static void fail(const char *what, int kind, const char *fn) {
    if (!err[0])
        snprintf(err, sizeof err, "%s: %s (%s)", fn, what, names[kind]);
}

static void add(int kind, const void *p, size_t len) {
    if (!p || (kind >= EDGES && len == 0))
        return;
    pthread_mutex_lock(&mutex);
    if (nrecs == cap) {
        cap = cap ? cap * 2 : 256;
        recs = realloc(recs, cap * sizeof *recs);
    }
    recs[nrecs++] = (Rec){p, len, kind};
    made++;
    pthread_mutex_unlock(&mutex);
}

static Rec *find(int kind, const void *p) {
    for (size_t i = nrecs; i-- > 0;)
        if (recs[i].p == p && (!kind || recs[i].kind == kind))
            return &recs[i];
    return NULL;
}

// Whether a handle may be used: null is the library's business, the rest must be live.
static int usable(int kind, const void *p, const char *fn) {
    pthread_mutex_lock(&mutex);
    int ok = !p || find(kind, p);
    if (!ok)
        fail(find(0, p) ? "used with an object of another kind" : "used after release", kind, fn);
    pthread_mutex_unlock(&mutex);
    return ok;
}

// Whether to pass a release on; `*len` is corrected to the true length.
static int drop_locked(int kind, const void *p, size_t *len, const char *fn) {
    if (!p)
        return 1;
    Rec *r = find(kind, p);
    if (!r) {
        if (kind >= EDGES && *len == 0)
            return 1;
        fail(find(0, p) ? "released with the function of another kind"
                        : "released twice, or never created",
             kind, fn);
        return 0;
    }
    if (len && r->len != *len) {
        fail("released with a wrong length", kind, fn);
        *len = r->len;
    }
    *r = recs[--nrecs];
    released++;
    return 1;
}

static int drop(int kind, const void *p, size_t *len, const char *fn) {
    pthread_mutex_lock(&mutex);
    int ok = drop_locked(kind, p, len, fn);
    pthread_mutex_unlock(&mutex);
    return ok;
}

#define CALL(RET, NAME, TYPES, ARGS)                                                             \
    static RET(*f) TYPES;                                                                        \
    if (!f)                                                                                      \
        f = real(#NAME);                                                                         \
    gx_in = 1;                                                                                   \
    RET r = f ARGS;                                                                              \
    gx_in = 0

#define CALLV(NAME, TYPES, ARGS)                                                                 \
    static void(*f) TYPES;                                                                       \
    if (!f)                                                                                      \
        f = real(#NAME);                                                                         \
    gx_in = 1;                                                                                   \
    f ARGS;                                                                                      \
    gx_in = 0

#define FREE_HANDLE(NAME, T, FIELD, KIND)                                                        \
    void NAME(const T g) {                                                                       \
        if (!drop(KIND, g.FIELD, NULL, #NAME))                                                   \
            return;                                                                              \
        CALLV(NAME, (const T), (g));                                                             \
    }
#define FREE_LIST(NAME, T, KIND)                                                                 \
    void NAME(const T *p, size_t n) {                                                            \
        if (!drop(KIND, p, &n, #NAME))                                                           \
            return;                                                                              \
        CALLV(NAME, (const T *, size_t), (p, n));                                                \
    }

FREE_HANDLE(free_gphrx_graph, GphrxGraph, graph_ptr, GRAPH)
FREE_HANDLE(free_gphrx_compressed_graph, GphrxCompressedGraph, graph_ptr, COMPRESSED)
FREE_HANDLE(free_gphrx_matrix, GphrxCsrSquareMatrix, matrix_ptr, MATRIX)
FREE_LIST(free_gphrx_edge_list, GphrxGraphEdge, EDGES)
FREE_LIST(free_gphrx_vertex_list, GphrxGraphVertex, VERTICES)
FREE_LIST(free_gphrx_matrix_entry_list, GphrxMatrixEntry, ENTRIES)
FREE_LIST(free_gphrx_bytes_buffer, uint8_t, BYTES)
void free_gphrx_string_buffer(const char *p) {
    if (!drop(TEXT, p, NULL, "free_gphrx_string_buffer"))
        return;
    CALLV(free_gphrx_string_buffer, (const char *), (p));
}

#define NEW(NAME)                                                                                \
    GphrxGraph NAME(void) {                                                                      \
        CALL(GphrxGraph, NAME, (void), ());                                                      \
        add(GRAPH, r.graph_ptr, 0);                                                              \
        return r;                                                                                \
    }
NEW(gphrx_new_undirected)
NEW(gphrx_new_directed)

#define LOAD(NAME, T, KIND)                                                                      \
    T NAME(const uint8_t *b, size_t n, uint8_t *e) {                                             \
        CALL(T, NAME, (const uint8_t *, size_t, uint8_t *), (b, n, e));                          \
        add(KIND, r.graph_ptr, 0);                                                               \
        return r;                                                                                \
    }
LOAD(gphrx_from_bytes, GphrxGraph, GRAPH)
LOAD(gphrx_compressed_graph_from_bytes, GphrxCompressedGraph, COMPRESSED)

// RET NAME(H handle, more arguments...), recording a result of kind RKIND.
#define DERIVE(RET, RFIELD, RKIND, NAME, H, FIELD, KIND, PARAMS, TYPES, ARGS)                     \
    RET NAME PARAMS {                                                                            \
        if (!usable(KIND, g.FIELD, #NAME))                                                       \
            return (RET){0};                                                                     \
        CALL(RET, NAME, TYPES, ARGS);                                                            \
        add(RKIND, r.RFIELD, 0);                                                                 \
        return r;                                                                                \
    }
#define G GphrxGraph
#define C GphrxCompressedGraph
#define M GphrxCsrSquareMatrix
DERIVE(G, graph_ptr, GRAPH, gphrx_duplicate, G, graph_ptr, GRAPH, (const G g), (const G), (g))
DERIVE(M, matrix_ptr, MATRIX, gphrx_find_avg_pool_matrix, G, graph_ptr, GRAPH,
       (const G g, uint64_t b), (const G, uint64_t), (g, b))
DERIVE(G, graph_ptr, GRAPH, gphrx_approximate, G, graph_ptr, GRAPH,
       (const G g, uint64_t b, double t), (const G, uint64_t, double), (g, b, t))
DERIVE(C, graph_ptr, COMPRESSED, gphrx_compress, G, graph_ptr, GRAPH, (const G g, uint8_t l),
       (const G, uint8_t), (g, l))
DERIVE(C, graph_ptr, COMPRESSED, gphrx_compressed_graph_duplicate, C, graph_ptr, COMPRESSED,
       (const C g), (const C), (g))
DERIVE(G, graph_ptr, GRAPH, gphrx_decompress, C, graph_ptr, COMPRESSED, (const C g), (const C),
       (g))
DERIVE(M, matrix_ptr, MATRIX, gphrx_matrix_duplicate, M, matrix_ptr, MATRIX, (const M g),
       (const M), (g))

#define TEXTF(NAME, H, FIELD, KIND, PARAMS, TYPES, ARGS)                                         \
    const char *NAME PARAMS {                                                                    \
        if (!usable(KIND, g.FIELD, #NAME))                                                       \
            return NULL;                                                                         \
        CALL(const char *, NAME, TYPES, ARGS);                                                   \
        add(TEXT, r, 0);                                                                         \
        return r;                                                                                \
    }
TEXTF(gphrx_matrix_string, G, graph_ptr, GRAPH, (const G g), (const G), (g))
TEXTF(gphrx_compressed_graph_matrix_string, C, graph_ptr, COMPRESSED, (const C g), (const C), (g))
TEXTF(gphrx_matrix_to_string, M, matrix_ptr, MATRIX, (const M g), (const M), (g))
TEXTF(gphrx_matrix_to_string_with_precision, M, matrix_ptr, MATRIX, (const M g, size_t d),
      (const M, size_t), (g, d))

#define LISTF(RET, NAME, RKIND, FIELD, KIND, PARAMS, TYPES, ARGS)                                \
    const RET *NAME PARAMS {                                                                     \
        size_t own = 0;                                                                          \
        if (!n)                                                                                  \
            n = &own;                                                                            \
        if (!usable(KIND, g.FIELD, #NAME)) {                                                     \
            *n = 0;                                                                              \
            return NULL;                                                                         \
        }                                                                                        \
        CALL(const RET *, NAME, TYPES, ARGS);                                                    \
        add(RKIND, r, *n);                                                                       \
        return r;                                                                                \
    }
LISTF(uint8_t, gphrx_to_bytes, BYTES, graph_ptr, GRAPH, (const G g, size_t *n),
      (const G, size_t *), (g, n))
LISTF(uint8_t, gphrx_compressed_graph_to_bytes, BYTES, graph_ptr, COMPRESSED,
      (const C g, size_t *n), (const C, size_t *), (g, n))
LISTF(GphrxGraphEdge, gphrx_get_edge_list, EDGES, graph_ptr, GRAPH, (const G g, size_t *n),
      (const G, size_t *), (g, n))
LISTF(GphrxGraphVertex, gphrx_get_vertex_in_edges_list, VERTICES, graph_ptr, GRAPH,
      (G g, uint64_t v, size_t *n), (G, uint64_t, size_t *), (g, v, n))
LISTF(GphrxGraphVertex, gphrx_get_vertex_out_edges_list, VERTICES, graph_ptr, GRAPH,
      (G g, uint64_t v, size_t *n), (G, uint64_t, size_t *), (g, v, n))
LISTF(GphrxMatrixEntry, gphrx_matrix_get_entry_list, ENTRIES, matrix_ptr, MATRIX,
      (const M g, size_t *n), (const M, size_t *), (g, n))

#define VALUE(RET, NAME, FIELD, KIND, PARAMS, TYPES, ARGS)                                       \
    RET NAME PARAMS {                                                                            \
        if (!usable(KIND, g.FIELD, #NAME))                                                       \
            return 0;                                                                            \
        CALL(RET, NAME, TYPES, ARGS);                                                            \
        return r;                                                                                \
    }
VALUE(int8_t, gphrx_is_undirected, graph_ptr, GRAPH, (const G g), (const G), (g))
VALUE(uint64_t, gphrx_vertex_count, graph_ptr, GRAPH, (const G g), (const G), (g))
VALUE(uint64_t, gphrx_edge_count, graph_ptr, GRAPH, (const G g), (const G), (g))
VALUE(int8_t, gphrx_does_edge_exist, graph_ptr, GRAPH, (const G g, uint64_t a, uint64_t b),
      (const G, uint64_t, uint64_t), (g, a, b))
VALUE(uint64_t, gphrx_get_vertex_in_degree, graph_ptr, GRAPH, (G g, uint64_t a), (G, uint64_t),
      (g, a))
VALUE(uint64_t, gphrx_get_vertex_out_degree, graph_ptr, GRAPH, (G g, uint64_t a), (G, uint64_t),
      (g, a))
VALUE(uint8_t, gphrx_compressed_graph_compression_level, graph_ptr, COMPRESSED, (const C g),
      (const C), (g))
VALUE(int8_t, gphrx_compressed_graph_is_undirected, graph_ptr, COMPRESSED, (const C g),
      (const C), (g))
VALUE(uint64_t, gphrx_compressed_graph_vertex_count, graph_ptr, COMPRESSED, (const C g),
      (const C), (g))
VALUE(uint64_t, gphrx_compressed_graph_edge_count, graph_ptr, COMPRESSED, (const C g), (const C),
      (g))
VALUE(int8_t, gphrx_compressed_graph_does_edge_exist, graph_ptr, COMPRESSED,
      (const C g, uint64_t a, uint64_t b), (const C, uint64_t, uint64_t), (g, a, b))
VALUE(uint64_t, gphrx_get_compressed_matrix_entry, graph_ptr, COMPRESSED,
      (const C g, uint64_t a, uint64_t b), (const C, uint64_t, uint64_t), (g, a, b))
VALUE(uint64_t, gphrx_matrix_dimension, matrix_ptr, MATRIX, (const M g), (const M), (g))
VALUE(uint64_t, gphrx_matrix_entry_count, matrix_ptr, MATRIX, (const M g), (const M), (g))
VALUE(double, gphrx_matrix_get_entry, matrix_ptr, MATRIX, (const M g, uint64_t a, uint64_t b),
      (const M, uint64_t, uint64_t), (g, a, b))

void gphrx_add_vertex(G g, uint64_t v, uint64_t *to, size_t n) {
    if (!usable(GRAPH, g.graph_ptr, "gphrx_add_vertex"))
        return;
    CALLV(gphrx_add_vertex, (G, uint64_t, uint64_t *, size_t), (g, v, to, n));
}
void gphrx_add_edge(G g, uint64_t a, uint64_t b) {
    if (!usable(GRAPH, g.graph_ptr, "gphrx_add_edge"))
        return;
    CALLV(gphrx_add_edge, (G, uint64_t, uint64_t), (g, a, b));
}
void gphrx_delete_edge(G g, uint64_t a, uint64_t b) {
    if (!usable(GRAPH, g.graph_ptr, "gphrx_delete_edge"))
        return;
    CALLV(gphrx_delete_edge, (G, uint64_t, uint64_t), (g, a, b));
}

// A call of the calling thread outside the arena: the C library then allocates the thread's storage for
// the library's thread-local variables, and keeps it for longer than the thread.
void gxf_warm_thread(void) {
    GphrxGraph (*make)(void) = (GphrxGraph(*)(void))real("gphrx_new_undirected");
    void (*release)(GphrxGraph) = (void (*)(GphrxGraph))real("free_gphrx_graph");
    release(make());
}
