"""The Python properties: how cases are generated, and what is checked on each."""
import array
import collections
import contextlib
import copy
import ctypes
import gc
import io
import math
import os
import re
import threading
import time

from hypothesis import strategies as st

import gxmodel as gm
from gxmodel import Bad, CModel, MAX, Model, Pool, eq

gx = None        # the graphrox package under test
gen = None       # the generate_graph script under test
fwd = None       # the forwarding library
scratch = None   # an empty directory of this worker


class Ctx:
    def __init__(self):
        self.labels, self.case, self.nontrivial = {}, set(), False

    def start(self):
        self.case, self.nontrivial = set(), False

    def label(self, name, cond=True):
        if cond and name not in self.case:
            self.case.add(name)
            self.labels[name] = self.labels.get(name, 0) + 1


# Generators ------------------------------------------------------------------------------

small = st.integers(0, 7)
any_id = st.one_of(
    st.integers(0, 23),
    st.builds(lambda k, d: max(k * 8 + d - 1, 0), st.integers(0, 40), st.integers(0, 2)),
    st.builds(lambda k, d: min(2**k + d, MAX) - 2, st.integers(3, 64), st.integers(0, 4)),
    st.builds(lambda d: MAX - 1 - d, st.integers(0, 20)),
    st.integers(0, MAX - 1),
)
palette = st.one_of(
    st.lists(st.integers(0, 11), min_size=1, max_size=8),
    st.lists(st.integers(0, 30), min_size=2, max_size=8),
    st.lists(any_id, min_size=1, max_size=8),
    st.builds(lambda b, v: [min(b + d, MAX - 1) for d in v], any_id,
              st.lists(st.integers(0, 20), min_size=1, max_size=8)),
    st.builds(lambda lo, v: [2**k + lo for k in v], st.integers(0, 5),
              st.lists(st.integers(0, 63), min_size=2, max_size=6)).map(
                  lambda v: [min(x, MAX - 1) for x in v]),
)
query_id = st.one_of(small, st.just(MAX), any_id)
bits64 = st.one_of(
    st.integers(0, MAX), st.just(MAX), st.integers(0, 63).map(lambda b: 1 << b),
    st.integers(1, 64).map(lambda p: (1 << p) - 1),
    st.sets(st.integers(0, 63), min_size=1, max_size=12).map(lambda s: sum(1 << b for b in s)),
    st.sets(st.integers(0, 63), max_size=10).map(lambda s: MAX - sum(1 << b for b in s)),
)
level = st.one_of(st.integers(1, 8), st.integers(1, 64), st.sampled_from([0, -1, -300, 65, 255, 256, 257, 320, 10**9]))
block_dim = st.one_of(st.integers(0, 9), st.integers(0, 40), st.sampled_from([2**32, 2**32 + 1, 2**63, MAX]), any_id)
coord = st.one_of(st.integers(0, 2), st.sampled_from([5, 2**29, 2**61 - 2]))


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


def weighted(pairs):
    # Not one_of, which treats repeated branches as one.
    table = [s for _, s in pairs]
    names = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(names).flatmap(lambda i: table[i])


def threshold_for(b):
    area = max(b, 1) ** 2
    exact = st.builds(lambda k, j: k / area * (1 + j * 2.0**-52),
                      st.integers(0, min(area, 100)), st.integers(-2, 2))
    near = st.builds(lambda k, j: k / area * (1 + math.copysign(2.0**(abs(j) - 53), j)),
                     st.integers(1, min(area, 100)), st.integers(-50, 50))
    return st.one_of(exact, near, st.floats(0, 1), st.sampled_from(
        [0, 1, 0.0, -1.0, 1e-18, 1e-19, 5e-324, 0.5, 2.0, float('inf'), float('-inf'), 1e300]))


approx_op = block_dim.flatmap(lambda b: op('approx', small, st.just(b), threshold_for(b)))
edit_ops = [
    (9, op('edge', small, small, small)),
    (3, op('del', small, small, small)),
    (1, op('vert', small, small, st.integers(0, 2))),
    (2, op('vto', small, small, weighted([(9, st.lists(small, max_size=4)), (1, st.lists(small, min_size=5, max_size=40))]), st.integers(0, 4))),
    (2, op('block', small, coord, coord, bits64)),
]
make_ops = [
    (2, op('new', st.integers(0, 2))),
    (1, op('dup', small, small)),
    (1, op('copy', small, small, st.booleans())),
    (2, op('comp', small, level)),
    (1, op('decomp', small)),
    (2, op('pool', small, block_dim)),
    (1, approx_op),
    (1, op('load', small, small)),
    (1, op('drop', small, small)),
]
around_op = op('around', small, st.integers(0, 10), query_id, query_id, st.integers(0, 9),
               st.lists(st.tuples(weighted([(7, st.integers(0, 4)), (1, st.just(5))]), small, small).map(list), min_size=1, max_size=4))
many_op = op('many', small, small, st.integers(0, 5), st.integers(0, 127), st.integers(0, 3))


def with_many(pairs):
    """The same choices and, seldom, very many objects at once."""
    return pairs + [(1, many_op)]


read_ops = [
    (2, op('read', small, small, query_id, query_id)),
    (1, around_op),
    (1, op('full', small, small, st.sampled_from([0, 1, 2, 3, 6, 17, 40]))),
]


class World:
    """Live Python objects next to their models."""

    def __init__(self, ids, ctx):
        self.ids, self.ctx = ids, ctx
        self.objs = {Model: [], CModel: [], Pool: []}
        self.used = set()

    def id(self, i):
        return self.ids[i % len(self.ids)]

    def qid(self, i):
        return self.id(i) if i < 8 else i

    def pick(self, kind, i):
        v = self.objs[kind]
        return v[i % len(v)] if v else None

    def pick_any(self, k, i):
        v = self.objs[(Model, CModel, Pool)[k % 3]]
        return v[i % len(v)] if v else self.pick(Model, i)

    def add(self, model, obj):
        v = self.objs[type(model)]
        v.append([model, obj])
        if len(v) > 5:
            del v[0]

    def all(self):
        return [p for v in self.objs.values() for p in v]

    def fan(self, f):
        """Gives a first graph a vertex with very many neighbours."""
        if not f:
            return
        hub, first, step, k, und = f
        self.op_new(und)
        m, g = self.objs[Model][0]
        hub, to = self.id(hub), [(first + step * j) & (MAX >> 1) for j in range(k)]
        if k % 3 == 0:
            # A repeat, and IDs that differ from others only in some upper bits.
            to += [to[j] ^ [0, 1 << 8, 1 << 16, 1 << 32][j % 4] for j in range(min(12, k // 3))]
        if first % 2:
            to.reverse()
        given = list(to)
        m.add_vertex(hub, to)
        g.add_vertex(hub, given)
        eq('list passed to add_vertex', given, to)
        self.ctx.label('more than 255 neighbours', k > 255)
        self.ctx.label('more than 65535 neighbours', k > 65535)

    def step(self, o):
        name = o[0]
        self.ctx.label('op ' + name)
        f = getattr(self, 'op_' + name)
        f(*o[1:])

    def op_new(self, und):
        if und == 2:
            self.add(Model(False), gx.Graph())
        else:
            self.add(Model(bool(und)), gx.Graph(is_undirected=bool(und)))

    def graph(self, i):
        if not self.objs[Model]:
            self.op_new(i % 2)
        return self.pick(Model, i)

    def op_edge(self, i, a, b):
        m, g = self.graph(i)
        a, b = self.id(a), self.id(b)
        m.add_edge(a, b)
        g.add_edge(a, b)
        self.ctx.label('IDs above 2^32', max(a, b) > 2**32)

    def op_del(self, i, a, b):
        m, g = self.graph(i)
        a, b = self.id(a), self.id(b)
        m.delete_edge(a, b)
        g.delete_edge(a, b)

    def op_vert(self, i, a, style):
        m, g = self.graph(i)
        m.add_vertex(self.id(a))
        if style == 0:
            g.add_vertex(self.id(a))
        else:
            g.add_vertex(self.id(a), [] if style == 1 else None)

    def op_vto(self, i, a, to, style):
        m, g = self.graph(i)
        to = [self.id(t) for t in to]
        m.add_vertex(self.id(a), to)
        given = tuple(to) if style == 2 else array.array('Q', to) if style == 4 else list(to)
        if style == 1:
            g.add_vertex(self.id(a), to_vertexs=given)
        else:
            g.add_vertex(self.id(a), given)
        eq('list passed to add_vertex', list(given), to)

    def op_block(self, i, c, r, bits):
        m, g = self.graph(i)
        for k in range(64):
            if bits >> k & 1:
                a, b = c * 8 + k % 8, r * 8 + k // 8
                m.add_edge(a, b)
                g.add_edge(a, b)
        self.ctx.label('dense block', bits.bit_count() > 40)

    def op_dup(self, k, i):
        p = self.pick_any(k, i)
        if p:
            self.used.add('dup')
            self.add(p[0].copy(), p[1].duplicate())

    def op_copy(self, k, i, deep):
        p = self.pick_any(k, i)
        if p:
            self.used.add('copy')
            self.add(p[0].copy(), (copy.deepcopy if deep else copy.copy)(p[1]))

    def op_comp(self, i, lvl):
        m, g = self.graph(i)
        self.used.add('comp')
        self.add(m.compress(lvl), g.compress(lvl))

    def op_decomp(self, i):
        p = self.pick(CModel, i)
        if p:
            self.used.add('decomp')
            self.add(p[0].decompress(), p[1].decompress())

    def op_pool(self, i, b):
        m, g = self.graph(i)
        self.used.add('pool')
        self.add(m.pool(b), g.find_avg_pool_matrix(b))

    def op_approx(self, i, b, t):
        m, g = self.graph(i)
        self.used.add('approx')
        a = g.approximate(b, t)
        self.add(gm.check_approx(m, b, t, a), a)

    def op_load(self, k, i):
        p = self.pick_any(k % 2, i)
        if p:
            self.used.add('load')
            data = bytes(p[1])
            gm.check_bytes(p[0], data)
            self.add(p[0].copy(), type(p[1]).from_bytes(data))

    def op_drop(self, k, i):
        v = self.objs[(Model, CModel, Pool)[k % 3]]
        if v:
            del v[i % len(v)]

    def op_read(self, k, i, x, y):
        p = self.pick_any(k, i)
        if not p:
            return
        m, o = p
        x, y = self.qid(x), self.qid(y)
        if isinstance(m, Model):
            eq(f'does_edge_exist({x}, {y})', o.does_edge_exist(x, y), (x, y) in m.e)
            eq(f'vertex_out_edges({x})', sorted(o.vertex_out_edges(x)), m.out(x))
            eq(f'vertex_in_edges({y})', sorted(o.vertex_in_edges(y)), m.ins(y))
            eq(f'vertex_out_degree({y})', o.vertex_out_degree(y), len(m.out(y)))
            eq(f'vertex_in_degree({x})', o.vertex_in_degree(x), len(m.ins(x)))
        elif isinstance(m, CModel):
            eq(f'compressed does_edge_exist({x}, {y})', o.does_edge_exist(x, y), m.has(x, y))
            eq(f'block ({x}, {y})', o.get_compressed_matrix_entry(x, y), m.bits.get((x, y), 0))
        else:
            k = m.counts.get((x, y), 0)
            v = o.get_entry(x, y)
            if v != 0.0 if k == 0 else not gm.pool_value_ok(k, m.b, v):
                raise Bad(f'get_entry({x}, {y}): got {v!r} for {k} of {m.b}x{m.b}')

    def ask(self, m, g, kind, x, y, b):
        """A single question."""
        if kind == 0:
            eq(f'vertex_in_degree({x})', g.vertex_in_degree(x), len(m.ins(x)))
        elif kind == 1:
            eq(f'vertex_out_degree({x})', g.vertex_out_degree(x), len(m.out(x)))
        elif kind == 2:
            eq(f'vertex_in_edges({x})', sorted(g.vertex_in_edges(x)), m.ins(x))
        elif kind == 3:
            eq(f'vertex_out_edges({x})', sorted(g.vertex_out_edges(x)), m.out(x))
        elif kind == 4:
            eq(f'does_edge_exist({x}, {y})', g.does_edge_exist(x, y), (x, y) in m.e)
        elif kind == 5:
            eq('counts', (g.vertex_count(), g.edge_count()), (m.n, len(m.e)))
        elif kind == 6:
            eq('edge_list', sorted(g.edge_list()), sorted(m.e))
        elif kind == 7:
            gm.check_any(m.pool(b), g.find_avg_pool_matrix(b), self.ids)
        elif kind == 8:
            gm.check_any(m.compress(b + 1), g.compress(b + 1), self.ids)
        elif kind == 9:
            a = g.approximate(b, 0.25)
            gm.check_any(gm.check_approx(m, b, 0.25, a), a, self.ids)
        elif m.n <= 60:
            eq('matrix_string', g.matrix_string(), m.text())
        else:
            gm.check_bytes(m, bytes(g))

    def op_around(self, i, kind, x, y, b, edits):
        """The same question before and after edits, of the graph and of its duplicate."""
        m, g = self.graph(i)
        x, y = self.qid(x), self.qid(y)
        self.ask(m, g, kind, x, y, b)
        m2, g2 = m.copy(), g.duplicate()
        for e, p, q in edits:
            if e < 2 and m.e:
                # An edge that is there, of the vertex asked about when it has one.
                mine = [t for t in m.e if x in t] or m.e
                p, q = sorted(mine)[(8 * p + q) % len(mine)]
                m.delete_edge(p, q)
                g.delete_edge(p, q)
            elif e == 5:
                # Hundreds of edits between two questions.
                n = (256, 512)[p % 2] - 1 + (0, 0, 0, 1, -1)[q % 5]
                a, b2 = self.id(p), self.id(q)
                if m.e:
                    t = min(m.e)
                    m.delete_edge(*t)
                    g.delete_edge(*t)
                for j in range(n):
                    if j % 2 == 0:
                        g.add_edge(a, b2)
                    else:
                        g.delete_edge(a, b2)
                m.add_edge(a, b2)
                if n % 2 == 0:
                    m.delete_edge(a, b2)
            elif e == 2 and x < MAX:
                m.add_edge(self.id(p), x)
                g.add_edge(self.id(p), x)
            elif e == 3 and x < MAX:
                m.add_vertex(x, [self.id(p), self.id(q)])
                g.add_vertex(x, [self.id(p), self.id(q)])
            else:
                m.add_edge(self.id(p), self.id(q))
                g.add_edge(self.id(p), self.id(q))
            self.ask(m, g, kind, x, y, b)
            self.ask(m2, g2, kind, x, y, b)
        self.ask(m, g, kind, x, y, b)

    def op_many(self, k, i, what, n, order):
        """Hundreds of copies, or of what an object returns, alive at once."""
        p = self.pick_any(k, i)
        if not p or not 50 <= n < 58:
            return
        n += 203
        m, o = p
        if not isinstance(m, Pool) and (len(m.e) if isinstance(m, Model) else len(m.bits)) > 60 or isinstance(m, Pool) and len(m.counts) > 60:
            return
        if what < 2:
            make = o.duplicate
        elif isinstance(m, Model):
            v = min(m.e)[0] if m.e else 0
            make = [o.edge_list, lambda: o.vertex_out_edges(v), lambda: bytes(o), lambda: iter(o.edge_list())][what - 2]
        elif isinstance(m, Pool):
            make = o.entry_list if what % 2 else lambda: iter(o.entry_list())
        else:
            make = lambda: bytes(o)
        made = [make() for _ in range(n)]
        self.ctx.label('hundreds of objects at once')
        look = (lambda x: gm.check_any(m, x, self.ids)) if what < 2 else (lambda x: eq('one of many', [repr(t) for t in x], was))
        if what >= 2:
            was = [repr(t) for t in make()]
        look(made.pop(1))
        look(made.pop(0))
        while made:
            x = made.pop([0, -1, len(made) // 2, len(made) * 5 // 7][order])
            if len(made) in (0, 1, n // 3):
                look(x)
        del x
        gm.check_any(m, o, self.ids)

    def op_full(self, k, i, digits):
        p = self.pick_any(k, i)
        if p:
            gm.check_any(*p, self.ids, digits, digits >= 17)

    def finish(self):
        for m, o in self.all():
            gm.check_any(m, o, self.ids)
            if not isinstance(m, Pool):
                gm.check_bytes(m, bytes(o))


def many(ops, parts=3):
    # Hypothesis keeps lists short; several of them make histories of a useful length.
    return st.tuples(*[st.lists(ops, max_size=10) for _ in range(parts)]).map(lambda t: sum(t, []))


def rarely(pairs):
    """None, or with `w` in a thousand, a draw from `s`, for each (w, s)."""
    def choose(x):
        for w, s in pairs:
            if 500 <= x < 500 + w:
                return s
            x -= w
        return st.none()
    return st.integers(0, 999).flatmap(choose)


def fan(ks):
    return st.tuples(small, st.one_of(small, any_id), st.sampled_from([1, 1, 2, 7, 8, 9, 64, 2**33 + 1]), ks,
                     st.booleans()).map(list)


fans = rarely([(20, fan(st.integers(2, 120))), (14, fan(st.integers(250, 262))), (6, fan(st.integers(262, 1100))),
               (2, fan(st.integers(65530, 65541)))])


def history(ops):
    # Some edges of one graph first, so that there is something to work on.
    first = st.lists(op('edge', st.just(0), small, small), max_size=12)
    ops = st.tuples(first, many(ops)).map(lambda t: t[0] + t[1])
    return st.fixed_dictionaries({'ids': palette, 'ops': ops, 'fan': fans})


class P22:
    id = 'P22'
    rule = ('A case is a history of up to 30 method calls on several live graphs, compressed graphs and '
            'matrices of the Python package (making, editing, duplicating, loading, compressing, '
            'decompressing, pooling, approximating, reading), over IDs clustered at block borders, powers of '
            'two and the top of the 64-bit range. Every result is compared with a set-of-edges model, and all '
            'live objects through all their methods at the end. Non-trivial: an object was derived from a '
            'graph with edges.')
    assumptions = ['pool and approximation values are compared as in P10 and P11', 'list order is unspecified',
                   'texts are compared for dimensions up to 260']
    cases = {'quick': 36_000, 'thorough': 400_000}
    fixed_cases = {'quick': 2, 'thorough': 20}  # of each shard

    @staticmethod
    def strategy():
        return history(weighted(with_many(edit_ops + make_ops + read_ops)))

    @staticmethod
    def fixed(r):
        """Cases of every run next to the generated ones: a few large ones."""
        f = large_fan(r)
        ops = [['edge', 0, r.randrange(8), r.randrange(8)] for _ in range(4)]
        ops.append(['edge', 0, f[0], 1])
        ops += r.sample([['dup', 0, 0], ['copy', 0, 0, r.random() < 0.5], ['load', 0, 0], ['pool', 0, r.choice([1, 2, 8, 30])],
                         ['comp', 0, r.choice([1, 2, 5])], ['vert', 0, f[0], 0]], 3)
        return {'ids': [r.randrange(12) for _ in range(5)], 'ops': ops + [['del', 0, f[0], 1], ['read', 0, 0, f[0], 3]], 'fan': f}

    @staticmethod
    def check(case, ctx):
        w = World(case['ids'], ctx)
        w.fan(case.get('fan'))
        for o in case['ops']:
            w.step(o)
        w.finish()
        ctx.nontrivial = bool(w.used) and any(isinstance(m, Model) and m.e for m, _ in w.all())
        ctx.label('four or more live objects', len(w.all()) >= 4)


def large_fan(r, least=2500):
    """A vertex with neighbours by the ten thousand, in two palette IDs."""
    k = int(math.exp(r.uniform(math.log(least), math.log(140_000))))
    return [r.randrange(2), r.choice([0, 1, 5, r.randrange(2**40)]), r.choice([1, 1, 2, 7, 9]), k, r.random() < 0.5]


class Seq:
    """A list handed out by the package, with the items it must keep having."""

    def __init__(self, obj, items):
        self.obj, self.items, self.order = obj, items, None
        self.iters = []

    def full(self):
        l = self.obj
        eq('len()', len(l), len(self.items))
        got = [x for x in l]
        if self.order is None:
            if sorted(map(repr, got)) != sorted(map(repr, self.items)):
                raise Bad(f'list holds {str(got)[:200]} want {str(self.items)[:200]}')
            self.order = got
        eq('iteration', got, self.order)
        return self.order


class P23:
    id = 'P23'
    rule = ('A case builds graphs and takes edge, neighbour and entry lists of them, then interleaves edits, '
            'further lists, partly advanced and nested iterations, indexing from both ends and out of range, '
            'and dropping of graphs and lists in any order; released native memory is poisoned and not reused. '
            'Items must stay those of the graph when the list was made, in the order first seen. Non-trivial: '
            'a list of two or more items was read after an edit or a drop.')
    assumptions = ['index -k is checked for k below the length', 'list order is unspecified, but fixed for a list']
    cases = {'quick': 24_000, 'thorough': 400_000}
    fixed_cases = {'quick': 2, 'thorough': 20}  # of each shard

    @staticmethod
    def strategy():
        huge = st.sampled_from([2**31, 2**32, 2**63, 2**64, 2**70, -2**31, -2**64, -2**70])
        index = weighted([(3, op('index', small, st.one_of(st.integers(-1, 3), st.just(5)), st.integers(0, 60))),
                          (1, op('index', small, st.just(4), huge))])
        ops = weighted([((n + 1) // 3, s) for n, s in edit_ops if n > 1] + [
            (4, op('list', small, small, query_id, st.integers(1, 9))),
            (3, index),
            (2, op('ends', small)),
            (1, op('ways', small, small)),
            (2, op('iter', small)),
            (2, op('next', small, st.integers(1, 6))),
            (1, op('nested', small, small)),
            (1, op('all', small)),
            (2, op('dropgraph', small)),
            (1, op('droplist', small)),
            (1, op('copylist', small, st.integers(0, 2))),
            (1, op('tempiter', small, query_id, st.integers(1, 9))),
            (1, op('new', st.integers(0, 1))),
        ])
        return history(ops)

    @staticmethod
    def fixed(r):
        f = large_fan(r, 9000)
        hub = f[0]
        kinds = [0, 1, 3] if not f[4] else [0, 1, 2, 3]
        r.shuffle(kinds)
        ops = []
        for k in kinds[:2]:
            ops.append(['list', k, 0, hub, r.choice([1, 1, 2, 3])])
        for q in (0, 1):
            ops += [['ends', q], ['iter', q], ['next', q, 5]]
            ops += [['index', q, r.choice([0, -1, 1, 5]), r.randrange(61)] for _ in range(6)]
            ops.append(['ways', q, r.randrange(4)])
        ops += [['edge', 0, hub, 1], ['dropgraph', 0], ['next', 0, 3], ['ends', 0], ['all', 1]]
        return {'ids': [r.randrange(12) for _ in range(5)], 'ops': ops, 'fan': f}

    @staticmethod
    def make(w, k, i, v, b):
        m, g = w.graph(i)
        v = w.qid(v)
        if k % 4 == 0:
            return Seq(g.edge_list(), sorted(m.e))
        if k % 4 == 1:
            return Seq(g.vertex_out_edges(v), m.out(v))
        if k % 4 == 2:
            return Seq(g.vertex_in_edges(v), m.ins(v))
        p = g.find_avg_pool_matrix(b)
        pool = m.pool(b)
        l = p.entry_list()
        items = [(p.get_entry(c, r), c, r) for c, r in pool.counts]
        return Seq(l, items)

    @classmethod
    def check(cls, case, ctx):
        w = World(case['ids'], ctx)
        w.fan(case.get('fan'))
        seqs, iters = [], []
        touched = False

        def advance(it):
            seq_items, order, live, pos = it['items'], it['order'], it['it'], it['pos']
            try:
                x = next(live)
            except StopIteration:
                if pos < len(seq_items):
                    raise Bad(f'iteration ended after {pos} of {len(seq_items)} items')
                ctx.label('iterator read past its end')
                return
            if pos >= len(seq_items):
                raise Bad(f'iteration gave {x} after its {pos} items')
            if order is not None:
                eq(f'item {pos} of an iteration', x, order[pos])
            it['got'].append(x)
            if order is None:
                left = it.get('left')
                if left is None:
                    left = it['left'] = collections.Counter(seq_items)
                if not left[x]:
                    raise Bad(f'iteration gave {x}, not in {str(seq_items)[:200]}')
                left[x] -= 1
            it['pos'] += 1

        for o in case['ops']:
            name = o[0]
            pick = (lambda v, i: v[i % len(v)] if v else None)
            if name == 'list':
                seqs.append(cls.make(w, *o[1:]))
                ctx.label('empty list', not seqs[-1].items)
                if len(seqs) > 6:
                    del seqs[0]
            elif name == 'dropgraph':
                v = w.objs[Model]
                if v:
                    del v[o[1] % len(v)]
                    touched = True
            elif name == 'droplist':
                if seqs:
                    del seqs[o[1] % len(seqs)]
            elif name == 'copylist':
                s = pick(seqs, o[1])
                if s and o[2] < 2:
                    other = Seq((copy.copy, copy.deepcopy)[o[2]](s.obj), s.items)
                    other.order = s.order
                    seqs.append(other)
                elif s and iters:
                    # An iterator goes on where it was, also through iter().
                    iters[o[1] % len(iters)]['it'] = iter(iters[o[1] % len(iters)]['it'])
            elif name == 'tempiter':
                # An iterator whose list is referenced by nothing else.
                s = cls.make(w, o[1], o[1], o[2], o[3])
                iters.append({'it': iter(s.obj), 'items': s.items, 'order': None, 'pos': 0, 'got': []})
                ctx.label('iterator of a dropped list', bool(s.items))
                del s
            elif name in ('iter', 'next', 'nested', 'all', 'index', 'ends', 'ways'):
                if name == 'next':
                    it = pick(iters, o[1])
                    if it:
                        for _ in range(o[2]):
                            advance(it)
                    continue
                s = pick(seqs, o[1])
                if not s:
                    continue
                n = len(s.items)
                if name == 'iter':
                    iters.append({'it': iter(s.obj), 'items': s.items, 'order': s.order, 'pos': 0, 'got': []})
                elif name == 'all':
                    s.full()
                elif name == 'nested':
                    t = pick(seqs, o[2])
                    a, b = s.full(), t.full()
                    got = []
                    for x in s.obj:
                        for y in t.obj:
                            got.append((x, y))
                            if len(got) > 600:
                                break
                    if len(a) * len(b) <= 600:
                        eq('nested iteration', got, [(x, y) for x in a for y in b])
                elif name == 'ways':
                    # What Python makes of a length, items and iterations.
                    order, l = s.full(), s.obj
                    k = o[2] % 4
                    if k == 0:
                        eq('list()', list(l), order)
                        eq('reversed()', list(reversed(l)), order[::-1])
                    elif k == 1:
                        eq('truth value', bool(l), n > 0)
                        eq('zip() with itself', list(zip(l, l)), [(x, x) for x in order])
                        eq('tuple()', tuple(l), tuple(order))
                    elif k == 2:
                        for x in order[:3] + order[-2:]:
                            eq(f'{x} in the list', x in l, True)
                        x = order[0] if order else 0
                        no = x + 2**65 if isinstance(x, int) else (*x[:-1], 2**65)
                        eq(f'{no} in the list', no in l, False)
                    else:
                        first, second = [*l], [*l, *l]
                        eq('unpacked', (first, second), (order, order + order))
                        it = iter(l)
                        eq('items of one iterator in pairs', list(zip(it, it)), list(zip(order[::2], order[1::2])))
                elif name == 'ends':
                    order = s.full()
                    # Also next to powers of two.
                    far = sorted({k for j in range(6, n.bit_length()) for k in (2**j - 1, 2**j, 2**j + 1, 3 * 2**j) if k < n})
                    for k in [*range(n)[:40], *far, *range(n)[40:][-3:]]:
                        eq(f'[{k}] of {n} items', s.obj[k], order[k])
                    for k in [*range(1, n)[:40], *far[3:], *range(1, n)[40:][-3:]]:
                        eq(f'[-{k}] of {n} items', s.obj[-k], order[n - k])
                else:
                    # From the front, from the end, at or past the end, any, huge, spread out.
                    k = o[3]
                    i = (k % max(n, 1) if o[2] == 0 else -1 - k % max(n - 1, 1) if o[2] in (-1, 1) else
                         n + k % 9 if o[2] == 2 else k - 30 if o[2] == 3 else k * (n // 61 + 1) % max(n, 1) if o[2] == 5 else k)
                    if i >= n or n == 0:
                        try:
                            x = s.obj[i]
                        except IndexError:
                            ctx.label('index out of range')
                        else:
                            raise Bad(f'[{i}] of {n} items gave {x}')
                    elif -n < i:
                        order = s.full()
                        eq(f'[{i}] of {n} items', s.obj[i], order[i])
                        ctx.label('negative index', i < 0)
                ctx.nontrivial |= touched and n > 1
            else:
                w.step(o)
                touched = touched or bool(seqs)
        # Whatever is left stays readable after the graphs are gone.
        w.objs = {Model: [], CModel: [], Pool: []}
        for it in iters:
            for _ in range(len(it['items']) - it['pos'] + 2):
                advance(it)
            if it['order'] is None and sorted(map(repr, it['got'])) != sorted(map(repr, it['items'])):
                raise Bad(f"iteration gave {str(it['got'])[:200]} want {str(it['items'])[:200]}")
        for s in seqs:
            s.full()
            ctx.nontrivial |= len(s.items) > 1
        ctx.label('long list', any(len(s.items) > 30 for s in seqs))


class P24:
    id = 'P24'
    rule = ('A case is a byte string and the kind of object that carries it (bytes, bytearray, memoryview, '
            'array, ctypes array, subclass, slices of larger buffers). The bytes are the documented layout of a '
            'generated graph or compressed graph, in any order, with none to several mutations of fields, items '
            'or length, or arbitrary. Loading must give exactly what an independent decoder reads, or raise '
            'ValueError; afterwards the source is overwritten and resized, and the object compared again, saved '
            'and reloaded. Non-trivial: the bytes carry a valid header.')
    assumptions = ['undirected graph bytes listing an edge redundantly with a matching count may be rejected or accepted']
    cases = {'quick': 40_000, 'thorough': 600_000}
    fixed_cases = {'quick': 2, 'thorough': 20}  # of each shard

    @staticmethod
    def strategy():
        field = st.one_of(st.integers(0, 9), st.sampled_from([2**32, 2**63, MAX, MAX - 1, 0x7ae71ffd, 0x71ff7aed]), st.integers(0, MAX))
        mut = st.one_of(
            op('set', st.integers(0, 60), st.integers(0, 255)),
            op('field', st.integers(0, 12), field),
            op('bump', st.integers(0, 12), st.sampled_from([-8, -2, -1, 1, 2, 8])),
            op('cut', st.integers(1, 60)),
            op('keep', st.integers(0, 60)),
            op('append', st.lists(st.integers(0, 255), min_size=1, max_size=30)),
            op('dupitem', small, st.booleans()),
            op('delitem', small, st.booleans()),
            op('flip', st.integers(0, 2000)),
        )
        structured = st.fixed_dictionaries({
            'kind': st.integers(0, 1),
            'as': st.one_of(st.none(), st.just(0), st.just(1)),
            'ids': palette,
            'ops': many(weighted(edit_ops), 2),
            'und': st.booleans(),
            'level': st.integers(1, 64),
            'shuffle': st.integers(0, 2**32),
            'muts': st.one_of(st.just([]), st.lists(mut, min_size=1, max_size=3)),
            'carrier': st.integers(0, 18),
            'many': rarely([(6, st.tuples(st.integers(250, 262), st.sampled_from([1, 8, 9]))),
                            (2, st.tuples(st.integers(2725, 2735), st.sampled_from([1, 8, 9]))),
                            (2, st.tuples(st.integers(4090, 4102), st.sampled_from([1, 8, 9]))),
                            (1, st.tuples(st.integers(65533, 65539), st.sampled_from([1, 8])))]),
        })
        raw = st.fixed_dictionaries({
            'as': st.integers(0, 1),
            'raw': st.one_of(st.binary(max_size=60), st.binary(min_size=20, max_size=90)).map(lambda b: list(b)),
            'carrier': st.integers(0, 18),
        })
        return weighted([(9, structured), (1, raw)])

    @staticmethod
    def fixed(r):
        muts = r.choice([[], [], [['cut', r.choice([1, 8, 16, 24])]], [['append', [0] * r.choice([1, 8, 16, 24])]],
                         [['bump', r.choice([2, 3]), r.choice([-1, 1])]], [['dupitem', r.randrange(8), True]],
                         [['delitem', r.randrange(8), r.random() < 0.5]]])
        return {'kind': r.choice([0, 0, 1]), 'as': None, 'ids': [0, 1, 2], 'ops': [], 'und': False, 'level': 1,
                'shuffle': r.randrange(2**32), 'muts': muts, 'carrier': r.choice([0, 3, 5, 9]),
                'many': [int(math.exp(r.uniform(math.log(9000), math.log(150_000)))), r.choice([1, 8])]}

    @staticmethod
    def build(case):
        if 'raw' in case:
            return bytes(case['raw']), 0
        m = Model(case['und'])
        w = World(case['ids'], Ctx())
        for o in case['ops']:
            if o[0] == 'edge':
                m.add_edge(w.id(o[2]), w.id(o[3]))
            elif o[0] == 'del':
                m.delete_edge(w.id(o[2]), w.id(o[3]))
            elif o[0] == 'vert':
                m.add_vertex(w.id(o[2]))
            elif o[0] == 'vto':
                m.add_vertex(w.id(o[2]), [w.id(t) for t in o[3]])
            else:
                for k in range(64):
                    if o[4] >> k & 1:
                        m.add_edge(o[2] * 8 + k % 8, o[3] * 8 + k // 8)
        k, stride = case.get('many') or (0, 1)
        for i in range(0 if case['kind'] else k):
            m.add_edge(i, i // 3 * stride)
        if case['kind']:
            m = m.compress(case['level'])
            if k:
                k = min(k, 6000) if k < 80_000 else k // 4
                m.bits.update({(i, i): MAX for i in range(0, k * stride, stride)})
                m.n = max(m.n, (k * stride) * 8)
        order = sorted(m.bits if case['kind'] else m.e)
        s = case['shuffle']
        for i in range(len(order) - 1, 0, -1):
            s = (s * 6364136223846793005 + 1442695040888963407) & MAX
            j = (s >> 33) % (i + 1)
            order[i], order[j] = order[j], order[i]
        b = bytearray(m.data(order))
        head, size = ((42, 24) if case['kind'] else (26, 16))
        fields = ([(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 1), (41, 1)] if case['kind']
                  else [(0, 4), (4, 4), (8, 8), (16, 8), (24, 1), (25, 1)])
        count_at = 16
        for mu in case['muts']:
            k = mu[0]
            if k == 'set' and b:
                b[mu[1] % len(b)] = mu[2]
            elif k in ('field', 'bump'):
                # A header field, or one of the words of the items.
                n = len(fields) + max(0, (len(b) - head) // 8)
                i = mu[1] % n
                at, width = fields[i] if i < len(fields) else (head + 8 * (i - len(fields)), 8)
                if at + width <= len(b):
                    v = mu[2] if k == 'field' else int.from_bytes(b[at:at + width], 'big') + mu[2]
                    b[at:at + width] = (v & (256**width - 1)).to_bytes(width, 'big')
            elif k == 'cut':
                del b[max(0, len(b) - mu[1]):]
            elif k == 'keep':
                del b[mu[1]:]
            elif k == 'append':
                b += bytes(mu[1])
            elif k == 'flip' and b:
                b[mu[1] // 8 % len(b)] ^= 1 << mu[1] % 8
            elif k in ('dupitem', 'delitem') and len(b) >= head + size:
                i = head + size * (mu[1] % ((len(b) - head) // size))
                item = bytes(b[i:i + size])
                if k == 'dupitem':
                    b += item
                else:
                    del b[i:i + size]
                if mu[2]:
                    c = int.from_bytes(b[count_at:count_at + 8], 'big') + (1 if k == 'dupitem' else -1)
                    b[count_at:count_at + 8] = (c & MAX).to_bytes(8, 'big')
        return bytes(b), case['kind']

    @staticmethod
    def carry(data, kind):
        """(object to load, function that overwrites its source or None)"""
        class Sub(bytes):
            pass

        def wipe(buf):
            def f():
                for i in range(len(buf)):
                    buf[i] = 0xEE
            return f
        if kind in (0, 1):
            return data, None
        if kind == 2:
            return Sub(data), None
        if kind in (3, 4):
            b = bytearray(data)

            def resize():
                wipe(b)()
                try:
                    b.extend(b'xyz')
                    del b[:]
                except BufferError:
                    raise Bad('the source bytearray stays locked after loading')
            return b, resize
        if kind == 5:
            return memoryview(data), None
        if kind == 6:
            b = bytearray(b'\x7a' * 5 + data + b'\x7a' * 7)
            return memoryview(b)[5:5 + len(data)], wipe(b)
        if kind == 7:
            b = bytearray(2 * len(data))
            b[::2] = data
            return memoryview(b)[::2], wipe(b)
        if kind == 8:
            b = bytearray(data[::-1])
            return memoryview(b)[::-1], wipe(b)
        if kind == 9:
            a = array.array('B', data)
            return a, wipe(a)
        if kind in (10, 11):
            for code in ('QIH' if kind == 10 else 'HI'):
                if len(data) % array.array(code).itemsize == 0:
                    a = array.array(code)
                    a.frombytes(data)

                    def zero():
                        for i in range(len(a)):
                            a[i] = 0
                    return (a if kind == 10 else memoryview(a)), zero
            return data, None
        if kind == 12 or not data:
            c = (ctypes.c_ubyte * len(data)).from_buffer_copy(data)
            return c, wipe(c)
        b = bytearray(data)
        if kind in (13, 14):
            # More than one dimension, or items that read as negative numbers.
            w = next((w for w in (3, 2, 7, 5) if len(b) % w == 0), 1)
            return memoryview(b).cast('B', [len(b) // w, w]) if kind == 13 else memoryview(b).cast('b'), wipe(b)
        if kind == 15:
            import numpy
            w = 2 - len(b) % 2
            return numpy.frombuffer(b, dtype='>i2' if w == 2 and data[-1] % 2 else 'i1').reshape(-1, w if data[-1] % 4 == 0 else 1), wipe(b)
        if kind == 16:
            import mmap
            f = mmap.mmap(-1, len(data))
            f[:] = data
            return f, wipe(f)
        if kind == 17:
            return io.BytesIO(data).getbuffer(), None

        class Held:
            def __buffer__(self, flags):
                return memoryview(b)
        return Held(), wipe(b)

    @classmethod
    def check(cls, case, ctx):
        data, kind = cls.build(case)
        target = kind if case.get('as') is None else case['as']
        verdict, m = (gm.decode_compressed if target else gm.decode_graph)(data)
        ctx.nontrivial = data[:4].hex() in ('7ae71ffd', '71ff7aed')
        ctx.label(('graph' if target == 0 else 'compressed') + ' ' + verdict)
        ctx.label(f"carrier {case['carrier']}")
        ctx.label('more than 64 KiB', len(data) > 65536)
        klass = gx.CompressedGraph if target else gx.Graph
        source, spoil = cls.carry(data, case['carrier'])
        try:
            o = klass.from_bytes(source)
        except ValueError as e:
            if verdict == 'accept':
                raise Bad(f'ValueError for valid bytes {data.hex()[:400]}')
            eq('source after a failed load', bytes(source), data)
            del source
            if spoil:
                # The exception, alive here, keeps nothing of the source in use.
                spoil()
            str(e)
            return
        if verdict == 'reject':
            raise Bad(f'accepted invalid bytes {data.hex()[:400]}')
        eq('source after a load', bytes(source), data)
        del source
        if spoil:
            spoil()
        gm.check_any(m, o)
        saved = bytes(o)
        gm.check_bytes(m, saved)
        again = klass.from_bytes(saved)
        gm.check_any(m, again)
        gm.check_bytes(m, bytes(again))


class P25:
    id = 'P25'
    rule = ('A case is a history of up to 30 actions in Python over a recording native layer: making, deriving, '
            'loading, reading, holding lists, abandoning iterators, failing constructions and calls, reference '
            'cycles, explicit collections and drops in any order. Each native object must be released exactly '
            'once, with the function of its kind and its length, never used afterwards, and nothing may remain '
            'allocated once all references are gone. One case in eight runs with a collection at almost every '
            'allocation. Non-trivial: a list, iterator, failed call or cycle was '
            'involved and something was dropped while other objects lived.')
    assumptions = ['lists of length zero own no memory and need no release']
    cases = {'quick': 16_000, 'thorough': 300_000}
    fails = 14

    @classmethod
    def strategy(cls):
        ops = weighted(with_many([((n + 1) // 3, s) for n, s in edit_ops if n > 1] + [(2 * n, s) for n, s in make_ops] + [
            (2, op('read', small, small, query_id, query_id)),
            (1, op('full', small, small, st.integers(0, 3))),
            (2, op('hold', small, small, query_id)),
            (1, op('copies', small, st.booleans())),
            (2, op('walk', small, small, query_id, st.one_of(st.integers(0, 5), st.sampled_from([70, 10**6])), st.booleans())),
            (1, op('text', small, small, st.integers(0, 3))),
            (1, op('bytes', small, small)),
            (3, op('fail', st.integers(0, cls.fails - 1), small, st.lists(st.integers(0, 255), max_size=50))),
            (1, op('cycle', small, small)),
            (1, op('raise', small, small)),
            (1, op('collect')),
            (3, op('drophold', small)),
            (2, op('drop', small, small)),
            (1, op('swap', small, small)),
        ]))
        return st.tuples(history(ops), st.integers(0, 7), weighted([(7, st.just(False)), (1, st.just(True))])).map(
            lambda t: {**t[0], 'end': t[1], **({'gc': True} if t[2] else {})})

    @staticmethod
    def fail(k, o, data):
        """A call that fails; what it raises is not this property's business."""
        g, bad = o, bytes(data)
        calls = [
            lambda: gx.Graph.from_bytes(bad),
            lambda: gx.CompressedGraph.from_bytes(bad),
            lambda: gx.Graph.from_bytes(bytes(g)[:-1 - len(bad) % 20]),
            lambda: gx.Graph.from_bytes(bytes(g) + bad + b'x'),
            lambda: gx.CompressedGraph.from_bytes(bytes(g.compress(1))[:-1]),
            lambda: gx.Graph(_c_graph='x'),
            lambda: gx.CompressedGraph(None),
            lambda: gx.CsrSquareMatrix(7),
            lambda: g.add_edge('a', 1),
            lambda: g.add_vertex(1, ['x']),
            lambda: g.compress('x'),
            lambda: g.approximate(2, 'x'),
            lambda: g.edge_list()[10**9],
            lambda: gx.Graph.from_bytes('text'),
        ]
        with contextlib.suppress(Exception):
            calls[k % len(calls)]()

    @classmethod
    def run(cls, case, ctx):
        w = World(case['ids'], ctx)
        w.fan(case.get('fan'))
        held = []
        special = dropped = False
        if case.get('fan'):
            # Long lists: walked to the end, read from both ends, walked again.
            m, g = w.objs[Model][0]
            hub = w.id(case['fan'][0])
            for l in g.vertex_out_edges(hub), g.vertex_in_edges(max(m.out(hub))), g.edge_list():
                kept = iter(l)
                for _ in l:
                    pass
                l[0], l[-1], len(l), next(kept)
                for _ in l:
                    pass
                held += [l, kept]
            special = True
            del l, kept, m, g

        def make_list(k, i, v):
            kinds = k % 4
            if kinds == 3 and w.objs[Pool]:
                return w.pick(Pool, i)[1].entry_list()
            g = w.graph(i)[1]
            return (g.edge_list() if kinds in (0, 3) else
                    g.vertex_out_edges(w.qid(v)) if kinds == 1 else g.vertex_in_edges(w.qid(v)))

        for o in case['ops']:
            name = o[0]
            if name in ('hold', 'walk', 'fail', 'cycle', 'raise'):
                special = True
            if name == 'hold':
                held.append(make_list(*o[1:]))
            elif name == 'copies':
                if held:
                    x = held[o[1] % len(held)]
                    with contextlib.suppress(Exception):
                        held.append((copy.deepcopy if o[2] else copy.copy)(x))
            elif name == 'walk':
                it = iter(make_list(*o[1:4]))
                with contextlib.suppress(StopIteration):
                    for _ in range(o[4]):
                        next(it)
                if o[5]:
                    held.append(it)
                del it
            elif name == 'text':
                p = w.pick_any(o[1], o[2])
                if p:
                    m, x = p
                    if isinstance(m, Pool):
                        if m.dim <= 10:
                            x.to_string(o[3])
                            str(x)
                    elif m.n <= 20:
                        x.matrix_string()
            elif name == 'bytes':
                p = w.pick_any(o[1] % 2, o[2])
                if p:
                    bytes(p[1])
            elif name == 'fail':
                cls.fail(o[1], w.graph(o[2])[1], o[3])
            elif name == 'cycle':
                p = w.pick_any(o[1], o[2])
                if p:
                    node = [p[1].duplicate(), p[1]]
                    node.append(node)
                    if isinstance(p[0], Pool):
                        node.append(iter(p[1].entry_list()))
                    del node
            elif name == 'raise':
                p = w.pick_any(o[1], o[2])
                if p:
                    def local():
                        d = p[1].duplicate()
                        raise KeyError(d)
                    with contextlib.suppress(KeyError):
                        local()
            elif name == 'collect':
                gc.collect()
            elif name == 'drophold':
                if held:
                    del held[o[1] % len(held)]
                    dropped = dropped or bool(held)
            elif name == 'swap':
                # Rebinding: the old object goes while its replacement is made from it.
                v = w.objs[Model]
                if v:
                    i = o[1] % len(v)
                    v[i][1] = v[i][1].duplicate()
            else:
                if name == 'drop':
                    dropped = dropped or len(w.all()) > 1
                w.step(o)
        ctx.nontrivial = special and dropped
        # Drop the rest in a chosen order.
        pools = [held, w.objs[Model], w.objs[CModel], w.objs[Pool]]
        e = case['end']
        pools = pools[e % 4:] + pools[:e % 4]
        for p in pools:
            while p:
                p.pop(0 if e & 4 else -1)

    @classmethod
    def check(cls, case, ctx):
        def ended():
            err = fwd.gxf_error() or fwd.gxf_memory_error()
            if err:
                raise Bad(err.decode())
            if fwd.gxf_live():
                gc.collect()
            fwd.gxf_check()
            err = fwd.gxf_error() or fwd.gxf_memory_error()
            if err:
                raise Bad(err.decode())
            if fwd.gxf_live():
                b = ctypes.create_string_buffer(300)
                fwd.gxf_describe_live(b, 300)
                raise Bad('never released: ' + b.value.decode())
        def run(ctx):
            if not case.get('gc'):
                return cls.run(case, ctx)
            # Collections at almost every allocation: cycles go while a call is under way.
            ctx.label('collections within calls')
            was = gc.get_threshold()
            gc.set_threshold(1)
            gc.enable()
            try:
                cls.run(case, ctx)
            finally:
                gc.disable()
                gc.set_threshold(*was)
        run(ctx)
        ctx.label('native objects', fwd.gxf_made() > 0)
        ctx.label('ten or more native objects', fwd.gxf_made() >= 10)
        ended()
        if fwd.gxf_live_blocks():
            # Not memory the library keeps from its first use?
            n = fwd.gxf_live_blocks()
            reset()
            run(Ctx())
            ended()
            if fwd.gxf_live_blocks():
                raise Bad(f'{n} blocks of native memory remain allocated')


class P26:
    id = 'P26'
    rule = ('A case is an edge-list file (listed pairs over up to 40 distinct IDs, with comments, blank and '
            'malformed lines, tabs, leading blanks, CRLF ends, repeats, self loops, IDs that are only targets), '
            'an edit script for the graph file and a compression level. The converted file must hold exactly '
            'the listed edges over the ranked IDs; the validator, run on the converted and on the edited file, '
            'must print exactly the listed pairs that the graph lacks; compression must write the compressed '
            'form. One to three such rounds use the same files, which may exist before with other contents. Non-trivial: two or more distinct pairs are listed.')
    assumptions = ['ASCII text',
                   'a printed line naming two numbers reports that pair']
    cases = {'quick': 24_000, 'thorough': 300_000}

    @staticmethod
    def strategy():
        ident = st.integers(0, 9)
        sep = st.sampled_from([' ', '\t', '  ', ' \t ', '\t\t'])
        lead = st.sampled_from(['', '', '', '', ' ', '\t'])
        junk = st.one_of(
            st.sampled_from(['', '', ' ', '\t', '#', '# comment', '#1 2', '#1\t2', '# 1 2', ' # 1 2', ' #1 2', '1', '1 2 3', 'a b',
                             '1 b', 'a 2', '1.5 2', '1 2.0', '1,2', '1, 2', '0x1 2', '1 2 # note', '1e3 2', '-', '1 -',
                             'FromNodeId ToNodeId', '1 2\t3', '1 #2', '# FromNodeId\tToNodeId']),
            st.text(alphabet='#ab .,\t', max_size=8))
        pair = op('pair', ident, ident, sep, lead, st.sampled_from(['', '', ' ', '\t']), weighted([(9, st.booleans()), (1, st.just(2))]))
        line = weighted([(5, pair), (1, op('junk', junk))])
        few = st.lists(st.integers(0, 12), min_size=1, max_size=10)
        ids = st.one_of(few, st.lists(st.integers(0, 300), min_size=1, max_size=10),
                        st.lists(st.sampled_from([0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 65535, 65536, 99999, 131072]), min_size=1, max_size=8))
        big = st.builds(lambda v, x: v + x, few, st.lists(st.one_of(
            st.integers(10**5, 2 * 10**6), st.integers(2**31 - 3, 2**33), st.integers(2**53 - 2, 2**53 + 9),
            st.integers(2**63 - 3, 2**64 + 3), st.integers(0, 10**30)), min_size=1, max_size=4))
        # Large ones that differ in their last digits, and some below zero.
        near = st.builds(lambda base, d: [base + x for x in d], st.one_of(
            st.sampled_from([2**24, 2**31, 2**32, 2**53, 2**63, 2**64, 10**18, 10**30]), st.integers(2**24, 2**66)),
            st.lists(st.integers(-3, 6), min_size=2, max_size=6))
        below = st.lists(st.one_of(st.integers(-12, 12), st.sampled_from([-10**6, -2**31, -2**63, -2**64 - 1])), min_size=2, max_size=6)
        edits = st.lists(st.one_of(op('del', ident, ident), op('add', ident, ident), op('loop', ident),
                                   op('dir'), op('vert', ident), op('clear'), op('move', ident, ident),
                                   op('swap', ident, ident), op('fill', ident, ident)), max_size=5)
        one = st.fixed_dictionaries({
            'lines': many(line, 2),
            'eol': weighted([(8, st.just('\n')), (4, st.just('\r\n')), (1, st.just('\r'))]),
            'end': st.booleans(),
            'edits': edits,
            'level': level,
            # The edited graph goes to another file, or over the converted one.
            'over': st.booleans(),
            # Converted, and compressed, onto the file it is read from.
            'onto': rarely([(3, st.just(True))]),
            # Very many listed pairs.
            'bulk': rarely([(15, st.tuples(st.integers(100, 1100), st.integers(1, 9), st.integers(0, 99), st.integers(1, 2000)).map(list)),
                            (2, st.tuples(st.integers(1100, 30000), st.integers(1, 9), st.integers(0, 99), st.integers(1000, 30000)).map(list))]),
            # A very long line: a comment, blanks, or a pair far apart.
            'long': rarely([(15, st.tuples(st.integers(0, 2), st.integers(60, 140_000), st.integers(0, 20), ident, ident).map(list))]),
        })
        return st.fixed_dictionaries({
            'ids': weighted([(16, ids), (2, big), (2, near), (1, below)]),
            'rounds': weighted([(2, st.lists(one, min_size=1, max_size=1)), (1, st.lists(one, min_size=2, max_size=3))]),
            # What the output files hold before.
            'before': st.one_of(st.none(), st.none(), st.lists(st.integers(0, 255), max_size=400)),
        })

    @staticmethod
    def check(case, ctx):
        files = [os.path.join(scratch, f) for f in ('in.txt', 'g.gphrx', 'h.gphrx', 'c.cgphrx')]
        for f in files:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(f)
            if case['before'] is not None:
                with open(f, 'wb') as o:
                    o.write(bytes(case['before']))
        ctx.label('outputs exist before', case['before'] is not None)
        ctx.label('files used again', len(case['rounds']) > 1)
        for k, r in enumerate(case['rounds']):
            try:
                P26.round(case['ids'], r, files, ctx)
            except Bad as e:
                raise Bad(f'round {k}: {e}') from None

    @staticmethod
    def round(ids, case, files, ctx):
        txt, out, out2, comp = files
        if case['over']:
            out2 = out
        at = lambda i: ids[i % len(ids)]
        pairs, lines = [], []
        for l in case['lines']:
            if l[0] == 'junk':
                lines.append(l[1])
            else:
                a, b = at(l[1]), at(l[2])
                pairs.append((a, b))
                # Leading zeros, or a sign, are no part of an ID.
                sign = '+' if l[6] == 2 else ''
                text = lambda v: f'{sign}{v}' if v >= 0 else str(v)
                zero = '00' if l[6] == 1 and len(l[5]) and a >= 0 else ''
                lines.append(f'{l[4]}{zero}{text(a)}{l[3]}{text(b)}{l[5]}')
                ctx.label('a plus sign', l[6] == 2)
                ctx.label('an ID below zero', a < 0 or b < 0)
        if case.get('long'):
            kind, n, where, a, b = case['long']
            where = min(where, len(lines))
            if kind == 2:
                pairs.append((at(a), at(b)))
            lines.insert(where, ['# ' + '1 2 ' * (n // 4), ' ' * n, f'{at(a)}' + ' ' * n + f'{at(b)}'][kind])
            ctx.label('a line of over 60 characters')
        if case.get('bulk'):
            n, x, y, top = case['bulk']
            for j in range(n):
                pairs.append((j * x % top, (j * y + 1) % top))
                lines.append('%d\t%d' % pairs[-1])
            ctx.label('over 100 listed pairs')
            ctx.label('over 1100 listed pairs', n > 1100)
        rank = {v: i for i, v in enumerate(sorted({v for p in pairs for v in p}))}
        m = Model(True, len(rank))
        for a, b in pairs:
            m.add_edge(rank[a], rank[b])
        text = case['eol'].join(lines) + (case['eol'] if case['end'] else '')
        with open(txt, 'wb') as f:
            f.write(text.encode())
        ctx.nontrivial |= len(set(pairs)) > 1
        ctx.label('no edges', not pairs)
        ctx.label('self loop', any(a == b for a, b in pairs))
        ctx.label('target-only ID', bool({b for _, b in pairs} - {a for a, _ in pairs}))
        ctx.label('junk lines', any(l[0] == 'junk' for l in case['lines']))
        ctx.label('large ID', any(v > 10**5 for v in rank))
        ctx.label('ID of more than 32 bits', any(v >> 32 for v in rank))

        gen.graph_from_text_file(txt, out)
        with open(txt, 'rb') as f:
            eq('text file after conversion', f.read(), text.encode())
        with open(out, 'rb') as f:
            data = f.read()
        gm.check_bytes(m, data)

        def missing(path):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                gen.validate_graph(txt, path)
            found = set()
            for line in buf.getvalue().splitlines():
                pair = re.search(r'(-?\d+)-(-?\d+)\s*$', line)
                nums = pair.groups() if pair else re.findall(r'-?\d+', line)
                if len(nums) == 2:
                    found.add((int(nums[0]), int(nums[1])))
            return found

        eq('pairs reported for the converted file', sorted(missing(out)), [])
        # A graph file that lacks or adds some edges.
        h = m.copy()
        n = max(1, len(rank))
        for e in case['edits']:
            if e[0] == 'del':
                a, b = pairs[e[1] * 3 % len(pairs)] if pairs else (0, 0)
                h.delete_edge(rank.get(a, 0), rank.get(b, 0))
            elif e[0] == 'add':
                h.add_edge(e[1] % n, e[2] % n)
            elif e[0] == 'loop':
                h.delete_edge(e[1] % n, e[1] % n)
            elif e[0] == 'vert':
                h.add_vertex(n + e[1])
            elif e[0] == 'move':
                # A listed edge becomes one of the same vertex to another, perhaps beyond those listed.
                a, b = pairs[e[1] * 3 % len(pairs)] if pairs else (0, 0)
                a, b = rank.get(a, 0), rank.get(b, 0)
                h.delete_edge(a, b)
                h.add_edge(a, b + 1 + e[2])
            elif e[0] == 'swap':
                # The same graph with two vertices exchanged.
                x, y = e[1] % n, e[2] % n
                other = lambda v: y if v == x else x if v == y else v
                h = Model(h.und, max(h.n, x + 1, y + 1), {(other(a), other(b)) for a, b in h.e})
            elif e[0] == 'fill' and n <= 40:
                # Edges to every vertex but one, and to one more than are listed.
                for t in range(n + 1):
                    h.add_edge(e[1] % n, t)
                h.delete_edge(e[1] % n, e[2] % n)
            elif e[0] == 'dir':
                h = Model(False, h.n, {p for p in h.e if p[0] <= p[1]})
            else:
                h = Model(h.und)
        with open(out2, 'wb') as f:
            f.write(h.data())
        want = {(a, b) for a, b in pairs if (rank[a], rank[b]) not in h.e}
        eq('pairs reported for the edited file', sorted(missing(out2)), sorted(want))
        ctx.label('missing edges', bool(want))
        ctx.label('checked again after an edit in place', case['over'])
        with open(out2, 'rb') as f:
            eq('graph file after validation', f.read(), h.data())

        if case.get('onto'):
            comp = out2
            ctx.label('written onto the input')
        gen.compress_gphrx_file(case['level'], out2, comp)
        with open(comp, 'rb') as f:
            gm.check_bytes(h.compress(case['level']), f.read())
        if case.get('onto'):
            gen.graph_from_text_file(txt, txt)
            with open(txt, 'rb') as f:
                gm.check_bytes(m, f.read())


class P29:
    id = 'P29'
    rule = ('A case is one or two shared graphs with a compressed graph, a pooled matrix, lists and the bytes of '
            'each, and a script for each of two or three Python threads: questions about the shared objects (every '
            'method, iteration and indexing of the shared lists) and about objects of its own, which it makes, '
            'changes and drops. Each script is first run alone, then all of them at once, eight to 320 times over (the shorter, the more often), with '
            'the interpreter switching threads as often as it can; every answer must be the one got alone, and '
            'the native objects must be used and released as in P25. Most cases ask mostly one kind of question, '
            'or make mostly one kind of change. '
            'Non-trivial: a shared graph has an edge and at least two answers are compared.')
    assumptions = ['which interleavings occur is up to the scheduler: a run samples them']
    cases = {'quick': 28_000, 'thorough': 240_000}
    kinds = 24
    reps = 8
    busy = 0.004  # Seconds per script, if that is more.
    tries = 10  # When a failure is reduced or replayed.

    @classmethod
    def strategy(cls):
        byte = st.integers(0, 255)
        q = st.tuples(st.integers(0, cls.kinds - 1), byte, byte, byte).map(list)
        ops = weighted([
            (6, op('shared', small, q)),
            (1, op('take', small)),
            (1, op('fresh', st.booleans())),
            (2, op('edge', byte, byte)),
            (1, op('del', byte, byte)),
            (1, op('vto', byte, st.lists(byte, max_size=3))),
            (1, op('keep', st.integers(0, 3), byte)),
            (4, op('own', q)),
        ])
        graph = st.fixed_dictionaries({'und': st.booleans(), 'ops': st.lists(weighted([
            (9, op('edge', small, small, small)), (2, op('del', small, small, small)),
            (2, op('block', small, coord, coord, bits64))]), max_size=10), 'level': st.integers(1, 6), 'b': st.integers(1, 9)})
        return st.fixed_dictionaries({
            'ids': palette,
            'sets': st.lists(graph, min_size=1, max_size=2),
            'focus': st.one_of(st.none(), st.integers(0, cls.kinds - 1), st.integers(0, cls.kinds - 1),
                               st.integers(cls.kinds, cls.kinds + 7)),
            'scripts': st.one_of(
                st.lists(st.lists(ops, min_size=1, max_size=5), min_size=2, max_size=3),
                st.lists(st.lists(op('shared', small, q), min_size=1, max_size=2), min_size=2, max_size=3)),
        })

    @staticmethod
    def ask(o, ids, q):
        k, i, j, s = q
        x, y = ids[i % len(ids)], ids[j % len(ids)]
        g, c, p = o['g'], o.get('c'), o.get('p')
        def seen(g):
            return [g.vertex_count(), g.edge_count(), sorted(g.edge_list())]
        def blocks(c):
            b = bytes(c)
            return [b[:42], sorted(b[t:t + 24] for t in range(42, len(b), 24))]
        def cells(p):
            return [p.dimension(), p.entry_count(), sorted(p.entry_list())]
        if k == 0:
            return [g.is_undirected(), g.vertex_count(), g.edge_count()]
        if k == 1:
            return g.vertex_in_degree(x)
        if k == 2:
            return g.vertex_out_degree(x)
        if k == 3:
            return sorted(g.vertex_in_edges(x))
        if k == 4:
            return sorted(g.vertex_out_edges(x))
        if k == 5:
            return g.does_edge_exist(x, y)
        if k == 6:
            return sorted(g.edge_list())
        if k == 7:
            b = bytes(g)
            return [b[:26], sorted(b[t:t + 16] for t in range(26, len(b), 16))]
        if k == 8:
            return g.matrix_string() if g.vertex_count() <= 40 else None
        if k == 9:
            return blocks(g.compress(1 + s % 6))
        if k == 10:
            return cells(g.find_avg_pool_matrix(1 + s % 12))
        if k == 11:
            return seen(g.approximate(2 + s % 12, (i % 100) / 99))
        if k == 12:
            return seen(g.duplicate())
        if k == 13:
            try:
                return seen(gx.Graph.from_bytes(o['data'][:-1 - i] if s % 3 == 0 else o['data'])) if 'data' in o else None
            except ValueError:
                return 'refused'
        if k == 14 and 'lists' in o:
            l = o['lists'][s % len(o['lists'])]
            return [len(l), [t for t in l]]
        if k == 15 and 'lists' in o:
            l = o['lists'][s % len(o['lists'])]
            return [l[i % len(l)], l[-1 - i % max(len(l) - 1, 1)]] if len(l) > 1 else None
        if k < 20 and c:
            if k == 16:
                return [c.is_undirected(), c.vertex_count(), c.edge_count(), c.compression_level()]
            if k == 17:
                return [c.does_edge_exist(x, y), c.get_compressed_matrix_entry(x // 8, y // 8)]
            if k == 18:
                return [blocks(c), c.matrix_string() if c.vertex_count() <= 200 else None]
            if s % 3 == 0:
                return seen(c.decompress())
            if s % 3 == 1:
                return blocks(c.duplicate())
            try:
                b = bytes(c)
                return blocks(gx.CompressedGraph.from_bytes(b[:-1 - i] if i % 2 else b))
            except ValueError:
                return 'refused'
        if k >= 20 and p:
            if k == 20:
                return [p.dimension(), p.entry_count(), p.get_entry(i % 8, j % 8), p.get_entry(x, y)]
            if k == 21:
                return cells(p)
            if k == 22:
                return [str(p), p.to_string(s % 12)] if p.dimension() <= 20 else None
            return cells(p.duplicate())
        return None

    @classmethod
    def focused(cls, ops, kind):
        """The operations, each followed by one change of the thread's own graph, all of one kind."""
        out = []
        for n, o in enumerate(ops):
            def ints(v):
                return [int(v)] if isinstance(v, int) else [x for t in v for x in ints(t)] if isinstance(v, list) else []
            v = ints(o) + [3 * n + 1, n]
            a, b = v[0], v[-3]
            out.append(o)
            if kind < 3:
                # Lists of one length in every thread.
                size = 1 + (kind + ops[0][0].startswith('s')) % 3
                out.append(['vto', a, [b + 5 * t + n for t in range(size)]])
            elif kind == 3:
                out += [['edge', a, b], ['edge', b, a + n], ['own', [0, 0, 0, 0]]]
            elif kind == 4:
                out += [['edge', a, b], ['edge', a, b + 1], ['del', a, b]]
            else:
                # The own compressed graph, matrix or bytes, and what it holds.
                out += [['edge', a, b], ['keep', kind - 5 if kind < 7 else 3, b], ['own', [(9, 10, 7)[kind - 5], a, b, 1]]]
                if kind < 7:
                    out.append(['own', [(18, 21)[kind - 5], a, b, 0]])
            out.append(['own', [6, 0, 0, 0]])
        return out

    @classmethod
    def script(cls, ops, sets, ids, focus):
        own = {'g': gx.Graph()}
        answers = []
        if focus is not None and focus >= cls.kinds:
            ops, focus = cls.focused(ops, focus - cls.kinds), None
        at = lambda i: ids[i % len(ids)]
        for n, o in enumerate(ops):
            name = o[0]
            if name in ('shared', 'own'):
                q = list(o[-1])
                if focus is not None and (len(ops) < 3 or (n + q[1]) % 4):
                    q[0] = focus
                answers.append(cls.ask(sets[o[1] % len(sets)] if name == 'shared' else own, ids, q))
            elif name == 'take':
                own = {'g': sets[o[1] % len(sets)]['g'].duplicate()}
            elif name == 'fresh':
                own = {'g': gx.Graph(is_undirected=o[1])}
            elif name == 'edge':
                own['g'].add_edge(at(o[1]), at(o[2]))
            elif name == 'del':
                own['g'].delete_edge(at(o[1]), at(o[2]))
            elif name == 'vto':
                own['g'].add_vertex(at(o[1]), [at(t) for t in o[2]])
            elif o[1] == 0:
                own['c'] = own['g'].compress(1 + o[2] % 6)
            elif o[1] == 1:
                own['p'] = own['g'].find_avg_pool_matrix(1 + o[2] % 9)
            elif o[1] == 2 and 'c' in own:
                own['g'] = own['c'].decompress()
            else:
                own['data'] = bytes(own['g'])
                own['g'] = gx.Graph.from_bytes(own['data'])
        return answers

    @classmethod
    def check(cls, case, ctx):
        cls.run(case, ctx)
        for err in (fwd.gxf_error(), fwd.gxf_memory_error()):
            if err:
                raise Bad(err.decode())
        if fwd.gxf_live():
            gc.collect()
        if fwd.gxf_live():
            buf = ctypes.create_string_buffer(300)
            fwd.gxf_describe_live(buf, 300)
            raise Bad('never released: ' + buf.value.decode())

    @classmethod
    def run(cls, case, ctx):
        ids, sets = case['ids'], []
        for t in case['sets']:
            w = World(ids, ctx)
            w.op_new(int(t['und']))
            for o in t['ops']:
                w.step(o)
            m, g = w.objs[Model][0]
            c, p = g.compress(t['level']), g.find_avg_pool_matrix(t['b'])
            v = min(m.e)[0] if m.e else 0
            sets.append({'g': g, 'c': c, 'p': p, 'data': bytes(g),
                         'lists': [g.edge_list(), g.vertex_out_edges(v), g.vertex_in_edges(v), p.entry_list()]})
            ctx.nontrivial |= bool(m.e)
            ids = ids + [x for e in sorted(m.e)[:6] for x in e]
        scripts, focus = case['scripts'], case['focus']
        took = time.thread_time()
        alone = [cls.script(ops, sets, ids, focus) for ops in scripts]
        took = (time.thread_time() - took) / len(scripts)
        ctx.nontrivial &= sum(map(len, alone)) > 1
        wrong, left = [], set(range(len(scripts)))
        gate = threading.Barrier(len(scripts))
        # Short scripts more often: a switch may have to fall between two of their steps.
        reps = max(cls.reps, min(40 * cls.reps, int(cls.busy / max(took, 1e-6))))

        def work(t):
            try:
                fwd.gxf_warm_thread()
                gate.wait()
                for rep in range(reps):
                    if wrong:
                        break
                    got = cls.script(scripts[t], sets, ids, focus)
                    if got != alone[t]:
                        n = next(i for i, (a, b) in enumerate(zip(got, alone[t])) if a != b)
                        wrong.append(f'thread {t}, answer {n}: got {str(got[n])[:200]} alone {str(alone[t][n])[:200]}')
            except BaseException as e:
                wrong.append(f'thread {t}: {type(e).__name__}: {str(e)[:200]}')
            finally:
                left.discard(t)

        threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(scripts))]
        for t in threads:
            t.start()
        last, still = None, 0
        while any(t.is_alive() for t in threads):
            for t in threads:
                t.join(1)
                if t.is_alive():
                    break
            else:
                break
            # Threads that wait for one another for good: asleep, and none has run since.
            now = []
            for t in threads:
                if t.is_alive():
                    with contextlib.suppress(OSError):
                        with open(f'/proc/self/task/{t.native_id}/status') as f:
                            now.append([l for l in f if l.startswith('State') or 'ctxt_switches' in l])
            asleep = all('sleeping' in n[0] for n in now if n)
            still = still + 1 if asleep and now == last else 0
            last = now
            if still >= 10:
                raise Bad(f'threads {sorted(left)} wait for one another for good')
        if wrong:
            raise Bad(wrong[0])
        eq('shared objects afterwards', [cls.script(ops, sets, ids, focus) for ops in scripts], alone)
        ctx.label('three threads', len(scripts) > 2)


PROPS = {p.id: p for p in (P22, P23, P24, P25, P26, P29)}


def reset():
    fwd.gxf_reset()
    fwd.gxf_reset_memory()
