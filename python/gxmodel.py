"""Reference model: naive sets and exact integers. Shares nothing with the code under test."""
import math
import struct

MAX = 2**64 - 1


class Model:
    """A graph as a set of (from, to) pairs and a vertex count."""

    def __init__(self, und, n=0, e=()):
        self.und, self.n, self.e = und, n, set(e)

    def copy(self):
        return Model(self.und, self.n, self.e)

    def add_vertex(self, v, to=()):
        self.n = max(self.n, v + 1)
        for t in to:
            self.add_edge(v, t)

    def add_edge(self, a, b):
        self.n = max(self.n, a + 1, b + 1)
        self.e.add((a, b))
        if self.und:
            self.e.add((b, a))

    def delete_edge(self, a, b):
        self.e.discard((a, b))
        if self.und:
            self.e.discard((b, a))

    def out(self, v):
        return sorted(b for a, b in self.e if a == v)

    def ins(self, v):
        return sorted(a for a, b in self.e if b == v)

    def counts(self, b):
        c = {}
        for x, y in self.e:
            k = (x // b, y // b)
            c[k] = c.get(k, 0) + 1
        return c

    def pool(self, b):
        if self.n == 0:
            return Pool(0, 1, {})
        b = min(max(b, 1), self.n)
        return Pool(-(-self.n // b), b, self.counts(b))

    def compress(self, level):
        level = min(max(level, 1), 64)
        bits = {}
        for x, y in self.e:
            k = (x // 8, y // 8)
            bits[k] = bits.get(k, 0) | 1 << ((y % 8) * 8 + x % 8)
        return CModel(self.und, self.n, level,
                      {k: v for k, v in bits.items() if v.bit_count() >= level})

    def text(self):
        return render(self.n, lambda c, r: '1' if (c, r) in self.e else '0')

    def data(self, order=None):
        edges = sorted(self.e) if order is None else order
        assert len(edges) == len(self.e)
        return (struct.pack('>IIQQBB', 0x7ae71ffd, 1, self.n, len(edges), self.und, 0)
                + b''.join(struct.pack('>QQ', *p) for p in edges))


class CModel:
    """A compressed graph as a map from block coordinates to block bits."""

    def __init__(self, und, n, level, bits):
        self.und, self.n, self.level, self.bits = und, n, level, dict(bits)

    def copy(self):
        return CModel(self.und, self.n, self.level, self.bits)

    def dim(self):
        return max(1, -(-self.n // 8))

    def ec(self):
        return sum(v.bit_count() for v in self.bits.values())

    def has(self, a, b):
        return bool(self.bits.get((a // 8, b // 8), 0) >> ((b % 8) * 8 + a % 8) & 1)

    def edges(self):
        return {(c * 8 + i % 8, r * 8 + i // 8)
                for (c, r), v in self.bits.items() for i in range(64) if v >> i & 1}

    def decompress(self):
        return Model(self.und, self.n, self.edges())

    def text(self):
        w = max([len(str(v)) for v in self.bits.values()], default=1)
        return render(self.dim(), lambda c, r: str(self.bits.get((c, r), 0)).rjust(w))

    def data(self, order=None):
        blocks = sorted(self.bits) if order is None else order
        assert len(blocks) == len(self.bits)
        return (struct.pack('>IIQQQQBB', 0x71ff7aed, 2, self.dim(), len(blocks), self.ec(),
                            self.n, self.und, self.level)
                + b''.join(struct.pack('>QQQ', self.bits[k], *k) for k in blocks))


class Pool:
    """A pooled matrix as the number of edges in each non-empty b x b block."""

    def __init__(self, dim, b, counts):
        self.dim, self.b, self.counts = dim, b, counts

    def copy(self):
        return Pool(self.dim, self.b, dict(self.counts))


def render(n, cell):
    return '\r\n'.join('[ ' + ', '.join(cell(c, r) for c in range(n)) + ' ]' for r in range(n))


def pow2(x):
    return x & (x - 1) == 0


def pool_value_ok(k, b, v):
    """Exact where doubles are exact, within a few ulps elsewhere."""
    area = b * b
    want = k / area
    if not 0 < v <= 1:
        return False
    if k == area or pow2(area):
        return v == want
    return abs(v - want) <= want * 1e-14


def reaches(k, b, t):
    """Whether k of b*b edges reach the threshold; None when too close to call."""
    area = b * b
    t = min(max(t, 1e-18), 1.0)
    if k == 0:
        return False
    if k == area:
        return True
    avg = k / area
    if not pow2(area) and abs(avg - t) <= t * 4e-16:
        return None
    return avg >= t


def decode_graph(b):
    """('accept' | 'reject' | 'either', model)"""
    if len(b) < 26:
        return 'reject', None
    magic, version, n, ec, und, w = struct.unpack('>IIQQBB', b[:26])
    if magic != 0x7ae71ffd or version != 1 or und > 1 or w != 0 or len(b) != 26 + 16 * ec:
        return 'reject', None
    m = Model(bool(und), n)
    listed = []
    for i in range(ec):
        p = struct.unpack_from('>QQ', b, 26 + 16 * i)
        if p[0] >= n or p[1] >= n:
            return 'reject', None
        listed.append(p)
        m.e.add(p)
        if m.und:
            m.e.add((p[1], p[0]))
    if len(m.e) != ec:
        return 'reject', None
    if len(set(listed)) != len(listed) or set(listed) != m.e:
        return 'either', m
    return 'accept', m


def decode_compressed(b):
    if len(b) < 42:
        return 'reject', None
    magic, version, dim, entries, ec, n, und, level = struct.unpack('>IIQQQQBB', b[:42])
    if (magic != 0x71ff7aed or version != 2 or und > 1 or not 1 <= level <= 64
            or dim != max(1, -(-n // 8)) or len(b) != 42 + 24 * entries):
        return 'reject', None
    m = CModel(bool(und), n, level, {})
    for i in range(entries):
        v, c, r = struct.unpack_from('>QQQ', b, 42 + 24 * i)
        if v == 0 or c >= dim or r >= dim or (c, r) in m.bits:
            return 'reject', None
        for k in range(64):
            if v >> k & 1 and (c * 8 + k % 8 >= n or r * 8 + k // 8 >= n):
                return 'reject', None
        m.bits[(c, r)] = v
    if m.ec() != ec:
        return 'reject', None
    if m.und:
        e = m.edges()
        if any((y, x) not in e for x, y in e):
            return 'reject', None
    return 'accept', m


# Comparisons of live Python objects with the model. `Bad` carries what differs.

class Bad(Exception):
    pass


def eq(what, got, want):
    if got != want or isinstance(got, bool) != isinstance(want, bool):
        raise Bad(f'{what}: got {str(got)[:300]} want {str(want)[:300]}')


def universe(m, extra, cap):
    ends = sorted({v for p in m.e for v in p})
    step = max(1, len(ends) // cap)
    s = set(ends[::step]) | set(extra)
    for v in sorted(s)[:5]:
        s |= {(v + 1) & MAX, (v - 1) & MAX, (v + 8) & MAX, v ^ 1 << 32, v ^ 1 << 63, v & 0xffffffff}
    s |= {0, m.n & MAX, (m.n - 1) & MAX, MAX}
    return sorted(s)


def check_edges(m, what, items):
    if len(items) != len(m.e) or set(items) != m.e:
        raise Bad(f'{what}: missing {sorted(m.e - set(items))[:4]}, '
                  f'unexpected {sorted(set(items) - m.e)[:4]}, {len(items)} items for {len(m.e)}')


def check_graph(m, g, extra=(), wide=False, cap=10):
    eq('is_undirected', g.is_undirected(), m.und)
    eq('vertex_count', g.vertex_count(), m.n)
    eq('edge_count', g.edge_count(), len(m.e))
    edges = g.edge_list()
    eq('len(edge_list)', len(edges), len(m.e))
    check_edges(m, 'edge_list', [e for e in edges])
    uni = universe(m, extra, cap)
    outs, ins = {}, {}
    for a, b in m.e:
        outs.setdefault(a, []).append(b)
        ins.setdefault(b, []).append(a)
    for v in uni[::max(1, len(uni) // 14)]:
        o, i = sorted(outs.get(v, [])), sorted(ins.get(v, []))
        eq(f'vertex_out_degree({v})', g.vertex_out_degree(v), len(o))
        eq(f'vertex_in_degree({v})', g.vertex_in_degree(v), len(i))
        eq(f'vertex_out_edges({v})', sorted(x for x in g.vertex_out_edges(v)), o)
        eq(f'vertex_in_edges({v})', sorted(x for x in g.vertex_in_edges(v)), i)
    pairs = sorted(m.e)[::max(1, len(m.e) // 16)]
    few = uni[::max(1, len(uni) // 7)]
    pairs += [(b, a) for a, b in pairs] + [(a, b) for a in few for b in few]
    for a, b in pairs:
        eq(f'does_edge_exist({a}, {b})', g.does_edge_exist(a, b), (a, b) in m.e)
    if m.n <= (260 if wide else 12):
        eq('matrix_string', g.matrix_string(), m.text())


def check_compressed(m, c, wide=False):
    eq('compressed is_undirected', c.is_undirected(), m.und)
    eq('compressed vertex_count', c.vertex_count(), m.n)
    eq('compression_level', c.compression_level(), m.level)
    eq('compressed edge_count', c.edge_count(), m.ec())
    keys = sorted(m.bits)[:12]
    for x, y in keys:
        for p in ((x, y), (y, x), (x + 1, y), (x, y + 1), ((x - 1) & MAX, y), (x ^ 1 << 32, y)):
            eq(f'block {p}', c.get_compressed_matrix_entry(*p), m.bits.get(p, 0))
    for x, y in keys[:3]:
        for i in range(0, 64, 3):
            a, b = x * 8 + i % 8, y * 8 + i // 8
            eq(f'compressed does_edge_exist({a}, {b})', c.does_edge_exist(a, b), m.has(a, b))
        for a, b in ((x * 8 + 8, y * 8), (x * 8, y * 8 + 8), (y * 8 + 7, x * 8 + 3), (MAX, y * 8)):
            a, b = a & MAX, b & MAX
            eq(f'compressed does_edge_exist({a}, {b})', c.does_edge_exist(a, b), m.has(a, b))
    for a, b in ((0, 0), (m.n & MAX, 0), (MAX, MAX)):
        eq(f'compressed does_edge_exist({a}, {b})', c.does_edge_exist(a, b), m.has(a, b))
    if m.dim() <= (140 if wide else 6):
        eq('compressed matrix_string', c.matrix_string(), m.text())


def check_pool(m, p, digits=None, wide=False):
    eq('pool dimension', p.dimension(), m.dim)
    eq('pool entry_count', p.entry_count(), len(m.counts))
    entries = p.entry_list()
    eq('len(entry_list)', len(entries), len(m.counts))
    seen = {}
    for v, c, r in entries:
        if (c, r) in seen:
            raise Bad(f'entry_list holds ({c}, {r}) twice')
        seen[c, r] = v
        k = m.counts.get((c, r))
        if k is None:
            raise Bad(f'entry_list holds {v} for the empty block ({c}, {r})')
        if not pool_value_ok(k, m.b, v):
            raise Bad(f'pool entry ({c}, {r}): got {v!r} for {k} of {m.b}x{m.b}')
        eq(f'get_entry({c}, {r})', p.get_entry(c, r), v)
        eq(f'get_entry({r}, {c}) is non-zero', p.get_entry(r, c) != 0.0, (r, c) in m.counts)
    eq('pool entries listed', len(seen), len(m.counts))
    for c, r in ((m.dim & MAX, 0), (0, m.dim & MAX), (MAX, 0), (0, 0)):
        eq(f'get_entry({c}, {r}) is non-zero', p.get_entry(c, r) != 0.0, (c, r) in m.counts)
    if m.dim <= (90 if wide else 10):
        def text(d):
            w = max([len(f'{v:.{d}f}') for v in seen.values()], default=len(f'{0.0:.{d}f}'))
            return render(m.dim, lambda c, r: f'{seen.get((c, r), 0.0):.{d}f}'.rjust(w))
        eq('to_string()', p.to_string(), text(2))
        eq('str()', str(p), text(2))
        # The same matrix at several precisions, near and far.
        for d in () if digits is None else (digits, digits + 1, digits + 16 + digits % 13, digits):
            eq(f'to_string({d})', p.to_string(d), text(d))


def check_bytes(m, data):
    """Bytes against the documented layout, in any order of the edges or blocks."""
    if not isinstance(data, bytes):
        raise Bad(f'bytes() gave {type(data)}')
    head, size = (26, 16) if isinstance(m, Model) else (42, 24)
    want = m.data()
    eq('length of bytes()', len(data), len(want))
    eq('header in bytes()', data[:head].hex(), want[:head].hex())

    def items(b):
        return sorted(b[i:i + size] for i in range(head, len(b), size))
    eq('items in bytes()', items(data), items(want))


def check_any(m, o, extra=(), digits=None, wide=False):
    """`wide`: compare the texts of larger matrices too."""
    if isinstance(m, Model):
        check_graph(m, o, extra, wide)
    elif isinstance(m, CModel):
        check_compressed(m, o, wide)
    else:
        check_pool(m, o, digits, wide)


def check_approx(m, b, t, g):
    """Returns the model of the approximation, whose undecided blocks are read off `g`."""
    if b <= 1 or m.n <= 1:
        return m.copy()
    b = min(b, m.n)
    r = Model(m.und, -(-m.n // b))
    for k, count in m.counts(b).items():
        want = reaches(count, b, t)
        if want is None:
            want = g.does_edge_exist(*k)
        if want:
            r.e.add(k)
    return r
