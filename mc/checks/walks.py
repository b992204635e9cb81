"""Q01, Q02: queries that walk the hypergraph."""
import itertools

from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, key, keys
from mc.histories import new_hg, close
from mc.observe import universe, snapshot, same

N = None


def store(hg, m, edges):
    for e in edges:
        hg.add([e], 1)
        m.add1(e, 1)


class Q01(Check):
    """Cases: (edges, center, depth)."""
    prop = 'Q01'
    technique = 'exhaustive enumeration of small hypergraphs, centers and depths on the real code, against breadth first search'
    rule = 'every set of edges of a universe up to a size, every vertex as center, every depth'
    assumptions = ['the reference model of the star of a vertex (checked by S03)']

    def worlds(self):
        x, y = ('p', 'a'), ('p', 'b', 'c')
        return {
            'small': [('r', 'a', 'b'), ('r', 'b', 'c'), ('r', 'c', 'd'), ('r', 'd', 'a'), ('a', 'b', 'd'), ('s', 'a', 'a'), ('b', 'e'),
                      ('r', 'c', 'b', 'e'), ('e', 'c', 'f'), ('q', 'f', 7), ('q', 7, 'a')],
            'nested': [x, y, ('r', x, 'd'), ('r', 'd', y), ('s', ('r', x, 'd'), 'e'), ('d', 'x/1', 'x'), ('t', 'x', 'e'), ('t', 1.5, 'd'),
                       ('r', 'p', 'a')],
        }

    def setup(self):
        self.table = self.worlds()

    def describe(self):
        return {'bounds': {'edges': self.size(), 'depth': self.depth()}}

    def size(self):
        return 6 if self.thorough else 5

    def depth(self):
        return 5 if self.thorough else 4

    def blocks(self):
        for name, es in self.table.items():
            for i in range(len(es)):
                for j in range(i, len(es)):
                    yield (name, i, j)
        yield ('line', 0, 0)
        yield ('hub', 0, 0)
        for name in FIGURES:
            yield ('figure', name, 0)

    def cases(self, block):
        name, i, j = block
        if name == 'figure':
            yield (name, i)
            return
        if name in ('line', 'hub'):
            for n in (7, 40) if name == 'line' else (300, 1200):
                yield (name, n)
            return
        es = self.table[name]
        if i == j:
            yield (name, (i,))
            return
        for k in range(self.size() - 1):
            for rest in itertools.combinations(range(j + 1, len(es)), k):
                yield (name, (i, j) + rest)

    def run_case(self, case, rec):
        hg = new_hg()
        m = Model()
        try:
            depth = self.depth()
            if case[0] == 'line':
                edges = [('r', 'v%d' % i, 'v%d' % (i + 1)) for i in range(case[1])]
                depth = 8
            elif case[0] == 'hub':
                edges = [('r', 'hub', 'v%d' % i) for i in range(case[1])] + [('s', 'v3', 'x'), ('s', 'x', 'y')]
                depth = 2
            elif case[0] == 'figure':
                edges = FIGURES[case[1]]
                depth = 6 if case[1].startswith('line') else 4
            else:
                edges = [self.table[case[0]][i] for i in case[1]]
            store(hg, m, edges)
            u = universe(edges, extra_vertices=['z', 'p', 'r'])
            before = snapshot(hg, u)
            vs = u['vertices'] if case[0] != 'hub' else ['hub', 'v3', 'x', 'y', 'z']
            for v in vs:
                for d in range(depth + 1):
                    same('ego(%s, %d) with %s' % (short(v), d, short(edges)), hg.ego(v, d), m.ego(v, d))
                    rec.count('transitions')
            if snapshot(hg, u) != before:
                raise Mismatch('ego changes the hypergraph %s' % short(edges))
            rec.state(sorted(keys(edges)))
            rec.count('traces_validated_against_impl', len(vs) * (depth + 1))
            rec.sample(edges)
        finally:
            close(hg)


def figures():
    """Larger hypergraphs of regular shapes: (name, edges)."""
    v = lambda i: 'v%d' % i
    for n in (5, 7, 9):
        yield 'line %d' % n, [('r', v(i), v(i + 1)) for i in range(n - 1)]
        yield 'line backwards %d' % n, [('r', v(i + 1), v(i)) for i in range(n - 1)]
        yield 'ring %d' % n, [('r%d' % (i % 2), v(i), v((i + 1) % n)) for i in range(n)]
        yield 'overlapping %d' % n, [('r', v(i), v(i + 1), v(i + 2)) for i in range(n - 2)]
    yield 'ladder', [('r', v(i), v(i + 2)) for i in range(6)] + [('s', v(i), v(i + 1)) for i in range(0, 8, 2)]
    yield 'tree', [('r', v((i - 1) // 2), v(i)) for i in range(1, 12)]
    yield 'star', [('r', 'v0', v(i)) for i in range(1, 9)] + [('s', 'v8', 'v9')]
    yield 'two parts', [('r', 'v0', 'v1'), ('r', 'v1', 'v2'), ('r', 'v5', 'v6'), ('r', 'v6', 'v7')]
    yield 'two ways', [('r', 'v0', 'v1'), ('r', 'v1', 'v2'), ('r', 'v2', 'v4'), ('s', 'v0', 'v3'), ('s', 'v3', 'v4'), ('t', 'v0', 'v5'),
                       ('t', 'v5', 'v6'), ('t', 'v6', 'v7'), ('t', 'v7', 'v4')]
    yield 'wide', [('r',) + tuple(v(i) for i in range(4)), ('s', 'v3', 'v4', 'v5'), ('t', 'v5', 'v6', 'v7', 'v0')]
    yield 'nested', [('r', 'v0', ('s', 'v1', 'v2')), ('t', ('s', 'v1', 'v2'), 'v3'), ('s', 'v1', 'v2'), ('r', 'v3', ('s', 'v4', ('u', 'v5'))),
                     ('t', ('s', 'v4', ('u', 'v5')), 'v6'), ('p', ('u', 'v5'), 'v6')]


FIGURES = dict(figures())
LIMIT = 250


def intersect_model(m, seeds):
    """From the definition: edges considered, all walks, walks kept, edges within them."""
    considered = {}
    for s in seeds:
        for e in m.ego(s, 2):
            if all(m.degree(x) <= LIMIT for x in e[1:]):
                considered[key(e)] = e
    edges = list(considered.values())
    steps = {}
    for e in edges:
        for x in e:
            steps.setdefault(key(x), set()).update(key(y) for y in e[1:])
    goal = set(key(s) for s in seeds)
    found = []

    def go(walk):
        if goal <= set(walk):
            found.append(walk)
            return
        for x in steps.get(walk[-1], ()):
            if x not in walk:
                go(walk + (x,))

    go((key(seeds[0]),))
    kept = set()
    for w in found:
        if all(x in goal or len(w) == min(len(o) for o in found if x in o) for x in w):
            kept.update(w)
    return [e for e in edges if all(key(x) in kept for x in e[1:])]


class Q02(Check):
    """Cases: (edges, seeds)."""
    prop = 'Q02'
    technique = 'exhaustive enumeration of small hypergraphs and seeds on the real code, against the definition'
    rule = 'every set of edges of a universe up to a size, every sequence of seeds up to a length; hubs around the limit'
    assumptions = ['the reference model of ego (checked by Q01) and degree (checked by S05)']

    def setup(self):
        x = ('p', 'a')
        self.table = {
            'small': [('r', 'a', 'b'), ('r', 'b', 'c'), ('r', 'c', 'd'), ('r', 'd', 'a'), ('a', 'c'), ('s', 'b', 'd'), ('r', 'a', 'b', 'e'),
                      ('r', 'e', 'c'), ('b', 'a'), ('s', 'd', 'd'), ('e', 'd', 'b')],
            'nested': [x, ('r', x, 'd'), ('r', 'd', 'a'), ('s', ('r', x, 'd'), 'e'), ('r', 7, 'd'), ('s', 7, 'e'), ('d', 'x', 'e'),
                       ('t', 'x', 'a', 7)],
        }
        self.seeds = {'small': ['a', 'b', 'd', 'z'], 'nested': ['a', 'd', x, 7, 'e']}

    def size(self):
        return 7 if self.thorough else 6

    def describe(self):
        return {'bounds': {'edges': self.size(), 'seeds': 3}}

    def blocks(self):
        for name in FIGURES:
            yield ('figure', name, 0)
        for kind in ('line', 'backwards', 'overlapping', 'ladder', 'nested'):
            yield ('far', kind, 0)
        for n in (249, 250, 251):
            for where in ('middle', 'end', 'connector', 'nested', 'direct/1', 'direct/2', 'direct/3',
                          'place/1', 'place/2', 'place/3', 'place/4', 'place/5'):
                yield ('hub', n, where)
        for name, es in self.table.items():
            for i in range(len(es)):
                for j in range(i, len(es)):
                    yield (name, i, j)

    def cases(self, block):
        name, i, j = block
        if name in ('hub', 'figure', 'far'):
            yield block
            return
        es = self.table[name]
        if i == j:
            yield (name, (i,))
            return
        for k in range(self.size() - 1):
            for rest in itertools.combinations(range(j + 1, len(es)), k):
                yield (name, (i, j) + rest)

    def run_case(self, case, rec):
        hg = new_hg()
        m = Model()
        try:
            if case[0] == 'hub':
                edges, seedss = self.hub(case[1], case[2])
            elif case[0] == 'far':
                edges, seedss = self.far(case[1])
            elif case[0] == 'figure':
                edges = FIGURES[case[1]]
                vs = sorted(set(x for e in edges for x in e[1:] if isinstance(x, str)))
                seedss = list(itertools.permutations(vs, 2)) + [tuple(t) for n in (3, 4, 5) for t in itertools.combinations(vs, n)]
                seedss += [t[::-1] for t in seedss[::3]] + [(vs[0],), tuple(vs), (('s', 'v1', 'v2'), 'v6'), ('v3', ('u', 'v5')), ('r', 'v2')]
            else:
                edges = [self.table[case[0]][i] for i in case[1]]
                vs = self.seeds[case[0]]
                seedss = [s for n in (1, 2, 3) for s in itertools.product(vs, repeat=n) if n < 3 or len(set(s)) == 3]
            store(hg, m, edges)
            u = universe(edges[:20])
            before = snapshot(hg, u)
            import gb.hypergraph.queries as queries
            for seeds in seedss:
                got = queries.intersect(hg, list(seeds))
                same_set('intersect(%s) with %s' % (short(seeds), short(edges)), got, intersect_model(m, seeds))
                rec.count('transitions')
                rec.count('traces_validated_against_impl')
            if snapshot(hg, u) != before:
                raise Mismatch('intersect changes the hypergraph %s' % short(edges))
            rec.state(sorted(keys(edges)))
            rec.sample((edges[:9], seedss[:3]))
        finally:
            close(hg)

    def far(self, kind):
        """Seeds with long walks between them."""
        v = lambda i: 'v%d' % i
        n = 25
        if kind == 'line':
            edges = [('r', v(i), v(i + 1)) for i in range(n)]
        elif kind == 'backwards':
            edges = [('r', v(i + 1), v(i)) for i in range(n)]
        elif kind == 'overlapping':
            edges = [('r', v(i), v(i + 1), v(i + 2)) for i in range(0, n, 2)]
        elif kind == 'ladder':
            edges = [('r', v(i), v(i + 1)) for i in range(n)] + [('s', v(i), 'w%d' % i) for i in range(0, n, 5)]
        else:
            v = lambda i: ('p', 'v%d' % i) if i % 3 == 2 else 'v%d' % i
            edges = [('r', v(i), v(i + 1)) for i in range(n)]
        seedss = []
        for gap in (1, 2, 3, 4, 5):
            for k in (2, 3, 4, 5, 6):
                if gap * (k - 1) <= n:
                    s = tuple(v(gap * i) for i in range(k))
                    seedss += [s, s[::-1], s[1:] + s[:1], s[k // 2:] + s[:k // 2]]
        return edges, seedss

    def hub(self, n, where):
        """A vertex with degree n, counting its repetitions, where it can matter."""
        h = ('p', 'h') if where == 'nested' else 'h'
        if where == 'middle':
            edges = [('r', 'a', h), ('r', h, 'b'), ('r', 'a', 'c'), ('r', 'c', 'd'), ('r', 'd', 'b')]
            own = 2
        elif where == 'end':
            edges = [('r', 'a', 'b', h), ('r', 'a', 'b'), ('s', 'b', 'c'), ('s', 'a', 'c')]
            own = 1
        elif where == 'connector':
            edges = [('h', 'a', 'b'), ('r', 'a', 'c'), ('r', 'c', 'b')]
            own = 1
        elif where.startswith(('direct', 'place')):
            # alone in an edge that connects the seeds, at each place
            e = ['r', 'a', 'b'] if where.startswith('direct') else ['r', 'a', 'b', 'y1', 'y2']
            e.insert(int(where[-1]), h)
            edges = [tuple(e), ('r', 'a', 'c'), ('r', 'c', 'd'), ('r', 'd', 'b')]
            own = 1
        else:
            edges = [('r', 'a', h), ('r', h, 'b'), ('s', 'a', 'c'), ('s', 'c', 'd'), ('s', 'd', 'b')]
            own = 2
        left = n - own
        i = 0
        while left > 0:
            k = min(3, left)
            # as the connector, so that the neighbours are few
            edges.append((h,) * k + ('x%d' % i,)) if where != 'nested' else edges.append(('r',) + (h,) * k + ('x%d' % i,))
            left -= k
            i += 1
        return edges, [('a', 'b'), ('b', 'a'), ('a', 'c'), ('a',), ('a', 'b', 'c')]


def same_set(what, got, want):
    g, w = keys(got), keys(want)
    if g != w:
        same(what, list({key(x): x for x in got}.values()), want)
