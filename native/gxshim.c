// gxshim: calls every function of the published header, as a C program would.
// The header alone decides argument types, structure layouts and field names.
#include <gphrx.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

extern __thread volatile int gx_in __attribute__((tls_model("initial-exec")));
#define LIB(expr) do { gx_in = 1; expr; gx_in = 0; } while (0)
static GphrxGraph G(void *p) { GphrxGraph g; memset(&g, 0, sizeof g); g.graph_ptr = p; return g; }
static GphrxCompressedGraph C(void *p) { GphrxCompressedGraph g; memset(&g, 0, sizeof g); g.graph_ptr = p; return g; }
static GphrxCsrSquareMatrix M(void *p) { GphrxCsrSquareMatrix g; memset(&g, 0, sizeof g); g.matrix_ptr = p; return g; }

unsigned sx_error_code(void) { return GPHRX_ERROR_INVALID_FORMAT; }

void sx_free_string(void *p) { LIB(free_gphrx_string_buffer(p)); }
void sx_free_bytes(void *p, size_t n) { LIB(free_gphrx_bytes_buffer(p, n)); }
void sx_free_graph(void *p) { LIB(free_gphrx_graph(G(p))); }
void sx_free_edges(void *p, size_t n) { LIB(free_gphrx_edge_list(p, n)); }
void sx_free_vertices(void *p, size_t n) { LIB(free_gphrx_vertex_list(p, n)); }
void sx_free_compressed(void *p) { LIB(free_gphrx_compressed_graph(C(p))); }
void sx_free_matrix(void *p) { LIB(free_gphrx_matrix(M(p))); }
void sx_free_entries(void *p, size_t n) { LIB(free_gphrx_matrix_entry_list(p, n)); }

size_t sx_edge_size(void) { return sizeof(GphrxGraphEdge); }
size_t sx_vertex_size(void) { return sizeof(GphrxGraphVertex); }
size_t sx_entry_size(void) { return sizeof(GphrxMatrixEntry); }
void sx_edge_at(const void *p, size_t i, uint64_t *out) {
    const GphrxGraphEdge *e = p;
    out[0] = e[i].from_vertex;
    out[1] = e[i].to_vertex;
}
uint64_t sx_vertex_at(const void *p, size_t i) { return ((const GphrxGraphVertex *)p)[i].vertex_id; }
double sx_entry_at(const void *p, size_t i, uint64_t *out) {
    const GphrxMatrixEntry *e = p;
    out[0] = e[i].col;
    out[1] = e[i].row;
    return e[i].entry;
}

void *sx_new(int und) {
    GphrxGraph g;
    LIB(g = und ? gphrx_new_undirected() : gphrx_new_directed());
    return (void *)g.graph_ptr;
}
void *sx_from_bytes(const uint8_t *b, size_t n, uint8_t *err) {
    GphrxGraph g;
    LIB(g = gphrx_from_bytes(b, n, err));
    return (void *)g.graph_ptr;
}
void *sx_duplicate(void *p) { GphrxGraph g; LIB(g = gphrx_duplicate(G(p))); return (void *)g.graph_ptr; }
const void *sx_matrix_string(void *p) { const char *s; LIB(s = gphrx_matrix_string(G(p))); return s; }
const void *sx_to_bytes(void *p, size_t *n) { const uint8_t *s; LIB(s = gphrx_to_bytes(G(p), n)); return s; }
int64_t sx_is_undirected(void *p) { int64_t r; LIB(r = gphrx_is_undirected(G(p))); return r; }
uint64_t sx_vertex_count(void *p) { uint64_t r; LIB(r = gphrx_vertex_count(G(p))); return r; }
uint64_t sx_edge_count(void *p) { uint64_t r; LIB(r = gphrx_edge_count(G(p))); return r; }
int64_t sx_does_edge_exist(void *p, uint64_t a, uint64_t b) {
    int64_t r;
    LIB(r = gphrx_does_edge_exist(G(p), a, b));
    return r;
}
void *sx_pool(void *p, uint64_t b) {
    GphrxCsrSquareMatrix m;
    LIB(m = gphrx_find_avg_pool_matrix(G(p), b));
    return (void *)m.matrix_ptr;
}
void *sx_approximate(void *p, uint64_t b, double t) {
    GphrxGraph g;
    LIB(g = gphrx_approximate(G(p), b, t));
    return (void *)g.graph_ptr;
}
void *sx_compress(void *p, uint8_t level) {
    GphrxCompressedGraph g;
    LIB(g = gphrx_compress(G(p), level));
    return (void *)g.graph_ptr;
}
const void *sx_edge_list(void *p, size_t *n) { const void *r; LIB(r = gphrx_get_edge_list(G(p), n)); return r; }
void sx_add_vertex(void *p, uint64_t v, uint64_t *to, size_t n) { LIB(gphrx_add_vertex(G(p), v, to, n)); }
void sx_add_edge(void *p, uint64_t a, uint64_t b) { LIB(gphrx_add_edge(G(p), a, b)); }
void sx_delete_edge(void *p, uint64_t a, uint64_t b) { LIB(gphrx_delete_edge(G(p), a, b)); }
const void *sx_in_list(void *p, uint64_t v, size_t *n) {
    const void *r;
    LIB(r = gphrx_get_vertex_in_edges_list(G(p), v, n));
    return r;
}
const void *sx_out_list(void *p, uint64_t v, size_t *n) {
    const void *r;
    LIB(r = gphrx_get_vertex_out_edges_list(G(p), v, n));
    return r;
}
uint64_t sx_in_degree(void *p, uint64_t v) { uint64_t r; LIB(r = gphrx_get_vertex_in_degree(G(p), v)); return r; }
uint64_t sx_out_degree(void *p, uint64_t v) { uint64_t r; LIB(r = gphrx_get_vertex_out_degree(G(p), v)); return r; }

void *sx_c_duplicate(void *p) {
    GphrxCompressedGraph g;
    LIB(g = gphrx_compressed_graph_duplicate(C(p)));
    return (void *)g.graph_ptr;
}
uint64_t sx_c_level(void *p) { uint64_t r; LIB(r = gphrx_compressed_graph_compression_level(C(p))); return r; }
int64_t sx_c_is_undirected(void *p) { int64_t r; LIB(r = gphrx_compressed_graph_is_undirected(C(p))); return r; }
uint64_t sx_c_vertex_count(void *p) { uint64_t r; LIB(r = gphrx_compressed_graph_vertex_count(C(p))); return r; }
uint64_t sx_c_edge_count(void *p) { uint64_t r; LIB(r = gphrx_compressed_graph_edge_count(C(p))); return r; }
int64_t sx_c_does_edge_exist(void *p, uint64_t a, uint64_t b) {
    int64_t r;
    LIB(r = gphrx_compressed_graph_does_edge_exist(C(p), a, b));
    return r;
}
uint64_t sx_c_entry(void *p, uint64_t a, uint64_t b) {
    uint64_t r;
    LIB(r = gphrx_get_compressed_matrix_entry(C(p), a, b));
    return r;
}
const void *sx_c_matrix_string(void *p) { const void *s; LIB(s = gphrx_compressed_graph_matrix_string(C(p))); return s; }
const void *sx_c_to_bytes(void *p, size_t *n) { const void *s; LIB(s = gphrx_compressed_graph_to_bytes(C(p), n)); return s; }
void *sx_c_from_bytes(const uint8_t *b, size_t n, uint8_t *err) {
    GphrxCompressedGraph g;
    LIB(g = gphrx_compressed_graph_from_bytes(b, n, err));
    return (void *)g.graph_ptr;
}
void *sx_decompress(void *p) { GphrxGraph g; LIB(g = gphrx_decompress(C(p))); return (void *)g.graph_ptr; }

void *sx_m_duplicate(void *p) { GphrxCsrSquareMatrix g; LIB(g = gphrx_matrix_duplicate(M(p))); return (void *)g.matrix_ptr; }
uint64_t sx_m_dimension(void *p) { uint64_t r; LIB(r = gphrx_matrix_dimension(M(p))); return r; }
uint64_t sx_m_entry_count(void *p) { uint64_t r; LIB(r = gphrx_matrix_entry_count(M(p))); return r; }
double sx_m_get(void *p, uint64_t a, uint64_t b) { double r; LIB(r = gphrx_matrix_get_entry(M(p), a, b)); return r; }
const void *sx_m_string(void *p) { const void *s; LIB(s = gphrx_matrix_to_string(M(p))); return s; }
const void *sx_m_string_with(void *p, size_t d) {
    const void *s;
    LIB(s = gphrx_matrix_to_string_with_precision(M(p), d));
    return s;
}
const void *sx_m_entries(void *p, size_t *n) { const void *s; LIB(s = gphrx_matrix_get_entry_list(M(p), n)); return s; }
