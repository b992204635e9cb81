"""Exhaustive exploration of sequences of operations on the real storage, against the reference model."""
import itertools

from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, apply, perform, key, is_edge
from mc.graph import Graph
from mc.observe import observe, universe, EVERYTHING
import mc.scenarios as sc

N = None


def new_hg():
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'sqlite', 'db': ':memory:'})


def close(hg):
    # frees the memory of the database
    try:
        hg.backend.conn.close()
    except Exception:
        pass


def clash(vs):
    """Different vertices that python considers equal cannot be told apart in a set."""
    seen = {}
    for v in vs:
        try:
            k = seen.setdefault(v, key(v))
        except TypeError:
            continue
        if k != key(v):
            return True
    return False


class HistoryCheck(Check):
    """Cases:
    ('history', scenario, mode, ops): a sequence of operations; what is asked is asked only at the end, or at
        each step too ('each').
    ('set', edges, removed): edges stored together, then one is removed.
    ('rich', v, w): edges with vertices of every kind.
    ('chars', first, step): symbols with 24 characters of Unicode, in each place.
    ('arity', edge): one wide edge, among others.
    ('large', n): n edges of a vertex; ('huge', n): many more, of two elements.
    ('stamp', t, t2): edges with timestamps of every kind.
    ('tour', scenario, part, parts): a walk that takes every transition from a part of all the reachable states."""

    kinds = EVERYTHING
    parts = ('history', 'tour', 'rich', 'arity', 'large', 'set', 'stamp')
    rule = ('every sequence of operations of each scenario up to a depth, replayed on a new hypergraph; every operation from every '
            'reachable state of each scenario (all of them, until there are no more), in long walks through one handle; every pair of '
            'vertices of a list of unusual ones; every set of edges of a universe up to a size; sizes around limits')
    assumptions = ['queries do not answer differently depending on something other than the operations made before, '
                   'through the same handle',
                   'storage is the real SQLite library of Python, with a database in memory']
    depth = 0

    def scenarios(self):
        return sc.common()

    def setup(self):
        self.table = {s.name: s for s in self.scenarios()}

    def describe(self):
        return {'bounds': {s.name: {'operations': len(s.ops), 'depth_asked_at_end': self.depth_end(s),
                                    'depth_asked_at_each_step': self.depth_each(s)} for s in self.table.values()}
                if 'history' in self.parts else {},
                'reachable_states': {s.name: {'states': len(self.graph(s).models), 'transitions': self.graph(s).transitions(),
                                              'all': self.graph(s).complete} for s in self.touring()},
                'parts': list(self.parts)}

    def depth_each(self, s):
        return s.depth + (1 if self.thorough else 0)

    def depth_end(self, s):
        return s.more + (1 if self.thorough else 0)

    # --- tours

    def touring(self):
        return list(self.table.values()) if 'tour' in self.parts else []

    def graph(self, s):
        gs = self.__dict__.setdefault('_graphs', {})
        if s.name not in gs:
            gs[s.name] = Graph(s.ops)
        return gs[s.name]

    def case_tour(self, hg, case, rec):
        _, name, part, parts = case
        s = self.table[name]
        g = self.graph(s)
        first = hg
        done = []
        left = {x: len(s.ops) for x in g.order[part * len(g.order) // parts:(part + 1) * len(g.order) // parts]}
        taken = set()
        for x in left:
            rec.state((name, x))
        for x, o in g.tour(part, parts):
            if x is None:
                # nothing else can be reached from here
                self.close(hg)
                done, hg = [], self.new_hg()
                continue
            op = s.ops[o]
            done.append(op)
            perform(hg, op)
            self.after(hg, op)
            rec.count('transitions')
            if x in left and (x, o) not in taken:
                taken.add((x, o))
                self.observe(hg, g.models[g.next[x][o]], s.u, 'after %d operations, the last ones %s, with %s' % (
                    len(done), short(done[-5:]), short([e for e, _ in g.models[x].edges.values()])))
        if hg is not first:
            self.close(hg)
        if len(taken) != sum(left.values()):
            raise RuntimeError('the tour is not complete')
        rec.count('transitions_of_all_reachable_states', len(taken))

    # --- blocks

    def blocks(self):
        for s in self.touring():
            k = max(1, len(self.graph(s).models) // 150)
            for i in range(k):
                yield ('tour', s.name, i, k)
        if 'large' in self.parts:
            for n in (70000, 33000) if self.thorough else (33000,):
                yield ('huge', n)
            for n in self.sizes():
                yield ('large', n)
        if 'arity' in self.parts:
            for e in sorted(self.wide_edges(), key=len, reverse=True):
                yield ('arity', e)
        if 'rich' in self.parts:
            for v in self.rich():
                yield ('rich', v)
            for c in self.chars():
                yield ('chars',) + c
        if 'stamp' in self.parts:
            yield ('stamp',)
        if 'set' in self.parts:
            for i in range(len(self.set_universe())):
                yield ('set', i)
        if 'history' in self.parts:
            for s in self.table.values():
                yield ('history', s.name, 'each', ())
                for i in range(len(s.ops)):
                    for j in range(len(s.ops)):
                        yield ('history', s.name, 'each', (i, j))
                        yield ('history', s.name, 'end', (i, j))

    def cases(self, block):
        if block[0] == 'history':
            _, name, mode, start = block
            s = self.table[name]
            n = len(s.ops)
            if not start:
                for i in range(n):
                    yield ('history', name, mode, (i,))
                return
            depth = (self.depth_each(s) if mode == 'each' else self.depth_end(s))
            for d in ([depth] if mode == 'each' else range(2, depth + 1)):
                for rest in itertools.product(range(n), repeat=d - len(start)):
                    yield ('history', name, mode, start + rest)
        elif block[0] == 'rich':
            for w in self.rich():
                yield ('rich', block[1], w)
        elif block[0] == 'stamp':
            for t in itertools.product(sc.TIMESTAMPS, repeat=2):
                yield ('stamp',) + t
        elif block[0] == 'set':
            us = self.set_universe()
            i = block[1]
            for k in range(0, self.set_size()):
                for rest in itertools.combinations(range(i + 1, len(us)), k):
                    yield ('set', (i,) + rest)
        else:
            yield block

    # --- spaces

    def rich(self):
        res = []
        for v in sc.rich_vertices():
            if key(v) not in [key(x) for x in res]:
                res.append(v)
        return res

    def chars(self):
        # the first ones, and then some of each part of Unicode
        res = [(i, 1) for i in range(0, 0x250, 24)]
        if self.thorough:
            res += [(i, 1) for i in range(0x258, 0x3200, 24)] + [(i, 13) for i in range(0x3200, 0x10ffff, 24 * 13)]
        else:
            res += [(i, 61) for i in range(0x258, 0x10ffff, 24 * 61 * 25)]
        return res

    def sizes(self):
        return [5000, 2001, 1001, 999, 300, 251, 250, 101, 64] if self.thorough else [1100, 300, 251, 101]

    def wide_edges(self):
        es = [('r', 'a', 'b', 'c', 'd', 'e', 'f'), ('r', 'a', 'a', 'b', 'r', 'a', 'r'),
              ('r', 7, 'a', ('a', 'b'), 'b', 1.5), ('r', 'a', 'a', 'a', 'a', 'a'), ('r', 'a', 'b', 'c', 'd', 'e'),
              ('r', 1, 2, 3, 4), ('r', ('r', 'a', 'b', 'c', 'd'), 'a', 'b', 5), ('r', 'a', 'b', 'c'),
              ('r', ('r', ('r', ('r', ('r', 'a'))))), ('r', 0, 1), ('r', 5), ('r', 'a', 23), ('r', 'a', 'b', 'a'),
              (('a', 'b'), ('b', 'a'), ('a', 'b'), 3), ('r', ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'), 'a')]
        deep, left = 'a', 'a'
        for n in range(120):
            deep, left = ('r', deep), (left, 'r')
            if n in (9, 39, 119):
                es += [deep, (deep, left)]
        if self.thorough:
            vs = ['r', 'a', 7, ('a', 'b')]
            for n in (2, 3, 4, 5):
                es += [('q',) + t for t in itertools.product(vs, repeat=n - 1)]
        return es

    def set_universe(self):
        vs = ['a', 'b', 'a/1']
        us = [t for t in itertools.product(vs, repeat=2)]
        us += [('a', 'a', 'b'), ('a', 'b', 'a'), ('b', 'a', 'a'), ('a', ('a', 'b')), ('b', ('a', 'b'), 'a'), ('b', ('b', ('a', 'b'))),
               ('a', 'a/1', 'a'), ('a', 1), ('a', 'b', 1)]
        return us

    def set_size(self):
        return 4 if self.thorough else 3

    # --- cases

    def new_hg(self):
        return new_hg()

    def close(self, hg):
        close(hg)

    def run_case(self, case, rec):
        hg = self.new_hg()
        try:
            getattr(self, 'case_' + case[0])(hg, case, rec)
            rec.count('traces_validated_against_impl')
        finally:
            self.close(hg)

    def observe(self, hg, m, u, where):
        try:
            observe(hg, m, u, self.kinds)
        except Mismatch as e:
            raise Mismatch('%s: %s' % (where, e))

    def after(self, hg, op):
        """What else must be true after each operation."""

    def step(self, hg, m, op, rec):
        perform(hg, op)
        self.after(hg, op)
        apply(m, op)
        rec.count('transitions')
        rec.state(m.state())

    def case_history(self, hg, case, rec):
        _, name, mode, seq = case
        s = self.table[name]
        g = self.graph(s)
        ops = [s.ops[i] for i in seq]
        at = 0
        if mode == 'each':
            self.observe(hg, g.models[at], s.u, 'at the start')
        for i, op in enumerate(ops):
            perform(hg, op)
            self.after(hg, op)
            at = g.next[at][seq[i]]
            rec.count('transitions')
            if mode == 'each' or i == len(ops) - 1:
                self.observe(hg, g.models[at], s.u, 'after %s' % short(ops[:i + 1]))
        rec.state((name, at))
        rec.sample(ops)

    def case_set(self, hg, case, rec):
        us = self.set_universe()
        edges = [us[i] for i in case[1]]
        u = getattr(self, '_set_u', None)
        if u is None:
            vs = ['a', 'b', 1, ('a', 'b')]
            pats = [p for n in (2, 3) for p in itertools.product([N] + vs, repeat=n)]
            u = self._set_u = universe(us, patterns=pats)
        m = Model()
        for i, e in enumerate(edges):
            self.step(hg, m, ('add', e, i), rec)
        self.observe(hg, m, u, 'with %s' % short(edges))
        for e in edges:
            self.step(hg, m, ('rem', e), rec)
            self.observe(hg, m, u, 'with %s, without %s' % (short(edges), short(e)))
            self.step(hg, m, ('add', e, 9), rec)
        rec.sample(edges)

    def case_rich(self, hg, case, rec):
        _, v, w = case
        edges = [(v, w), ('r', w, v), ('r', ('s', v), w), ('x', w, 'y', v)]
        looks = sc.lookalikes(v) if key(v) == key(w) else []
        stored = [l for l in looks if not clash([v, w, l])]
        edges += [('x', l, 'y', l) for l in stored]
        if clash([x for e in edges for x in e] + edges + [v, w]):
            rec.count('skipped_equal_in_python')
            return
        extra = [(w, v), ('r', v, w), ('x', v, 'y', w)] + [('r', w, l) for l in looks] + [('r', l, v) for l in looks]
        pats = [(v, N), (N, w), (N, N, v), ('r', w, N), (N, w, N, v), (N, w, 'y', N), ('r', ('s', v), N), (N, N), (N, N, N)]
        pats += [(N, N, l) for l in looks] + [('x', l, N, N) for l in looks]
        u = universe(edges, extra_vertices=looks, extra_edges=extra, patterns=pats)
        u['roots'] = [r for r in u['roots'] if ':' not in r]
        m = Model()
        for i, e in enumerate(edges):
            # several, because the first element can be an edge
            self.step(hg, m, ('add', [e], i), rec)
        self.observe(hg, m, u, 'with %s' % short(edges))
        for e in edges:
            self.step(hg, m, ('rem', [e]), rec)
            self.observe(hg, m, u, 'with %s, up to %s removed' % (short(edges), short(e)))
        rec.sample(edges)

    def case_chars(self, hg, case, rec):
        _, first, step = case
        edges, looks, roots = [], [], []
        for i in range(first, first + 24 * step, step):
            if i > 0x10ffff or 0xd800 <= i < 0xe000 or chr(i).isspace() or chr(i) in '()':
                continue
            c = chr(i)
            edges += [('r', 'a%sb' % c), (c + 'x', 'z'), ('z', 'y' + c, c + '/1')]
            looks += [('r', 'a%sb' % x) for x in (c.upper(), c.lower(), 'a', '', c + c)] + [('z', 'y', c + '/1'), ('z', 'y' + c, 'a/1')]
            # a root has no slash
            roots += ['y' + c, c] if c != '/' else []
        edges = list({key(e): e for e in edges}.values())
        u = universe(edges, extra_edges=looks, roots=roots, patterns=[p for e in edges for p in ((N,) * (len(e) - 1) + e[-1:],
                                                                                             e[:-1] + (N,))])
        m = Model()
        self.step(hg, m, ('add', edges, 3), rec)
        self.observe(hg, m, u, 'with %s' % short(edges, 100))
        for k in (0, 1):
            for e in edges[k::2]:
                self.step(hg, m, ('rem', e), rec)
            self.observe(hg, m, u, 'with half of %s removed' % short(edges, 100))
        rec.sample(case)

    def case_arity(self, hg, case, rec):
        e = case[1]
        near = [e[:-1] if len(e) > 2 else e + ('z',), e[:1] + e[1:][::-1], tuple(reversed(e))]
        near = [x for x in near if not is_edge(x[0])]
        if len(e) > 6:
            near = near[:1]
        pats = [(N,) * i + (x,) + (N,) * (len(e) - i - 1) for i, x in enumerate(e)]
        pats += [e[:i] + (N,) + e[i + 1:] for i in range(len(e))] + [e, (N,) * len(e)]
        u = universe([e], extra_edges=near, patterns=pats, extra_vertices=['z', 0, 3])
        m = Model()
        for i, x in enumerate([e] + near):
            self.step(hg, m, ('add', [x], i + 1), rec)
            self.observe(hg, m, u, 'with %s' % short(x))
        for x in [e] + near:
            self.step(hg, m, ('rem', [x]), rec)
            self.observe(hg, m, u, 'without %s' % short(x))
        rec.sample(e)

    def case_stamp(self, hg, case, rec):
        _, t, t2 = case
        es = [('r', 'a', 'b'), ('s', 'a', 'c'), ('r', ('r', 'a', 'b'), 'd'), ('p', 'a', 7)]
        u = universe(es, extra_vertices=['z'], patterns=[(N, 'a', N)])
        m = Model()
        for op in (('add', es[0], t), ('add', es[1:3], t2), ('rem', es[0]), ('add', es[0], t2), ('bel+', 'z', es[3], t),
                   ('batch', [('add', es[1], t), ('rem', es[1])]), ('destroy',), ('add', es[:2], t2)):
            self.step(hg, m, op, rec)
            self.observe(hg, m, u, 'with timestamps %s and %s, after %s' % (t, t2, short(op)))

    def case_huge(self, hg, case, rec):
        n = case[1]
        m = Model()
        edges = [('hub', 'v/%d' % i) for i in range(n)]
        self.step(hg, m, ('add', edges, 5), rec)
        u = universe(edges[:1] + edges[-1:], patterns=[('hub', N)], roots=['v', 'hub'], extra_vertices=['v/%d' % n, 'v'])
        u['lengths'] = [2]
        self.observe(hg, m, u, 'with %d edges' % n)
        self.step(hg, m, ('rem', [edges[5], edges[n - 2]]), rec)
        self.observe(hg, m, u, 'with %d edges' % (n - 2))
        self.step(hg, m, ('rbp', ('hub', N)), rec)
        self.observe(hg, m, u, 'with %d edges removed' % n)

    def case_large(self, hg, case, rec):
        n = case[1]
        m = Model()
        edges = [('r', 'hub', 'v/%d' % i) for i in range(n)]
        self.step(hg, m, ('add', edges, 5), rec)
        u = universe(edges[:2] + edges[-2:], patterns=[('r', 'hub', N), (N, 'hub', N), ('r', N, 'v/7'), (N, N, N)],
                     roots=['v', 'r', 'hub'], extra_vertices=['v/%d' % n, 'v'])
        self.observe(hg, m, u, 'with %d edges' % n)
        self.step(hg, m, ('rem', edges[5]), rec)
        self.observe(hg, m, u, 'with %d edges' % (n - 1))
        self.step(hg, m, ('rbp', ('r', 'hub', N)), rec)
        self.observe(hg, m, u, 'with %d edges removed' % n)
        rec.sample(case)
