"""S09, S14, B01, B02, N01: several operations in one, and what is built on the basic operations."""
import itertools

from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, apply, perform, key, is_edge
from mc.histories import HistoryCheck, new_hg, close, clash
from mc.observe import observe, universe, EVERYTHING, snapshot, differs
import mc.scenarios as sc
from mc.scenarios import Scenario, add, rem, multi

N = None
TECH = 'explicit-state exploration of operation histories on the real code against a reference model'


class S09(HistoryCheck):
    """More cases:
    ('group', ops): the operations in one batch, through the backend the functions are given or through the
        hypergraph; what can be asked is asked inside, after each operation, and after the batch.
    ('list', op, initial, edges): one addition or removal of a list of edges."""
    prop = 'S09'
    technique = TECH
    parts = ('history', 'tour', 'group', 'list')
    rule = ('every sequence of operations up to a depth grouped in one batch, in two, or nested, with everything asked '
            'inside and after; every list of edges up to a length in one call, from every initial set; histories of batches')

    def scenarios(self):
        return [sc.batches(), sc.several()]

    def pool(self):
        a, b, c, d = ('r', 'a/1', 'b'), ('r', 'b', 'a'), ('p/2', ('r', 'a/1', 'b')), ('q', 'a', 7, 'a')
        ops = [add(a, 1), add(multi(c, a), 2), add(d), add(multi(b, b), 3), rem(a), rem(multi(b, d)), rem(multi(c)), ('destroy',)]
        return ops, universe([a, b, c, d], extra_vertices=['z', 7.0], roots=['a', 'p', 'b'],
                             patterns=[('r', N, N), (N, 'a/1', N), (N, a), (N, N, 7, N), (N, N), (N, 'a', 7, N)])

    def blocks(self):
        ops, _ = self.pool()
        for i in range(len(ops)):
            yield ('group', i)
        for i in range(5):
            for j in range(5):
                yield ('list', i, j)
        for b in super().blocks():
            yield b

    def cases(self, block):
        if block[0] == 'group':
            ops, _ = self.pool()
            for n in range(1, 5 if self.thorough else 4):
                for rest in itertools.product(range(len(ops)), repeat=n - 1):
                    seq = (block[1],) + rest
                    for how in (('backend', 'hg') if n < 3 else ('backend',)):
                        yield ('group', seq, how)
                    for cut in range(1, n):
                        yield ('group', seq, 'two', cut)
                        yield ('group', seq, 'nested', cut)
        elif block[0] == 'list':
            for n in range(0, 4 if self.thorough else 3):
                for rest in itertools.product(range(5), repeat=n):
                    for what in ('add', 'rem'):
                        for initial in itertools.chain.from_iterable(itertools.combinations(range(5), k) for k in range(4)):
                            yield ('list', what, initial, block[1:] + rest)
        else:
            for c in super().cases(block):
                yield c

    def case_group(self, hg, case, rec):
        ops, u = self.pool()
        seq = [ops[i] for i in case[1]]
        m = Model()
        ran = []
        # something is there before
        self.step(hg, m, ('add', ('q', 'a', 7, 'a'), 4), rec)

        def fun(op):
            def f(backend):
                target = hg if case[2] == 'hg' else backend
                perform(target, op)
                apply(m, op)
                ran.append(op)
                rec.count('transitions')
                rec.state(m.state())
                self.observe(target, m, u, 'inside the batch %s, after %s' % (short(seq), short(op)))
                return True
            return f

        # the same operation is the same function
        made = {repr(op): fun(op) for op in seq}
        funs = [made[repr(op)] for op in seq]
        if case[2] == 'two':
            hg.batch_exec(funs[:case[3]])
            self.observe(hg, m, u, 'after the batch %s' % short(seq[:case[3]]))
            hg.batch_exec(funs[case[3]:])
        elif case[2] == 'nested':
            k = case[3]
            hg.batch_exec([lambda b: b.batch_exec(funs[:k])] + funs[k:])
        else:
            hg.batch_exec(tuple(funs))
        if ran != seq:
            raise Mismatch('the functions of the batch %s are executed as %s' % (short(seq), short(ran)))
        self.observe(hg, m, u, 'after the batch %s' % short(seq))
        self.step(hg, m, ('add', ('q', 'a', 7, 'a'), 8), rec)
        self.step(hg, m, ('rem', ('p/2', ('r', 'a/1', 'b'))), rec)
        self.observe(hg, m, u, 'after the batch %s and other operations' % short(seq))
        rec.sample(case[2:] + tuple(seq))

    def case_list(self, hg, case, rec):
        a, b, c, d = ('r', 'a', 'b'), ('r', 'b', 'a'), ('p', ('r', 'a', 'b')), ('q', 'a', 7, 'a')
        es = [a, b, c, d, (a, b)]
        u = getattr(self, '_list_u', None)
        if u is None:
            u = self._list_u = universe(es, patterns=[('r', N, N), (N, 'a', 7, N), (N, a), (a, N)])
        _, what, initial, idx = case
        m = Model()
        for i in initial:
            self.step(hg, m, ('add', [es[i]], i), rec)
        edges = [es[i] for i in idx]
        if idx and not is_edge(es[idx[0]][0]) and len(idx) % 2:
            edges = tuple(edges)
        self.step(hg, m, ('add', edges, 9) if what == 'add' else ('rem', edges), rec)
        self.observe(hg, m, u, '%s of %s, from %s' % (what, short(edges), short([es[i] for i in initial])))
        rec.sample((what, edges))


def alike(v):
    """Other vertices like v, that python can tell from it and from each other."""
    res = []
    for l in sc.lookalikes(v):
        if not clash([v] + res + [l]) and key(l) not in [key(x) for x in res]:
            res.append(l)
    return res


class S14(HistoryCheck):
    """More cases: ('pattern', edges, pattern): removal by a pattern from a set of edges.
    ('alike', i, j): the same from edges with an unusual vertex and others that look like it."""
    prop = 'S14'
    technique = TECH
    parts = ('history', 'tour', 'pattern', 'large')
    rule = ('every pattern over a small alphabet applied to every set of edges up to a size; histories with removals by '
            'pattern; large sets')

    def scenarios(self):
        return [sc.by_pattern(), self.odd()]

    def odd(self):
        a, b, c, d, e = ('n', 7), ('n', 7, 'x'), ('n', 'x', 7), (('n', 7), 'x'), ("it's", 'A%', 'a')
        return Scenario('odd', [add(a), add(b, 3), add(c), add(multi(d), 4), add(e), ('rbp', (N, 7)), ('rbp', (N, 7.0)),
                                ('rbp', (N, 'x')), ('rbp', (N, 'A%', N)), ('rbp', (('n', 7), N)), ('rbp', (N, N, 'A')),
                                ('rbp', (N, N, 7))], 3, 4, edges=[a, b, c, d, e])

    def world(self):
        es = self.set_universe() + [(('a', 'b'), 'a'), (('a', 'b'), ('a', 'b'), 'b'), ('b', 'b', 'b')]
        vs = [N, 'a', 'b', 'a/1', ('a', 'b'), 1]
        return es, [p for n in (2, 3) for p in itertools.product(vs, repeat=n)]

    def blocks(self):
        for i in range(len(self.world()[0])):
            yield ('pattern', i)
        for i in range(len(self.rich())):
            yield ('alike', i)
        for b in super().blocks():
            yield b

    def cases(self, block):
        if block[0] == 'alike':
            for j in range(7):
                yield ('alike', block[1], j)
        elif block[0] == 'pattern':
            es, ps = self.world()
            for k in range(0, 3 if self.thorough else 2):
                for rest in itertools.combinations(range(block[1] + 1, len(es)), k):
                    for p in range(len(ps)):
                        yield ('pattern', (block[1],) + rest, p)
        else:
            for c in super().cases(block):
                yield c

    def case_pattern(self, hg, case, rec):
        es, ps = self.world()
        u = getattr(self, '_pat_u', None)
        if u is None:
            u = self._pat_u = universe(es)
        m = Model()
        edges = [es[i] for i in case[1]]
        self.step(hg, m, ('add', edges, 3), rec)
        self.step(hg, m, ('rbp', ps[case[2]]), rec)
        self.observe(hg, m, u, 'remove_by_pattern(%s) with %s' % (short(ps[case[2]]), short(edges)))
        rec.sample((edges, ps[case[2]]))


    def case_alike(self, hg, case, rec):
        v = self.rich()[case[1]]
        looks = alike(v)
        edges = [('r', v, 'p'), ('r', v, ('q', v)), ('r', 'p', v), (v, 'p'), ('r', v)]
        edges += [e for l in looks for e in (('r', l, 'p'), ('r', 'p', l), ('r', l, v), (l, 'p'))]
        pattern = [('r', v, N), (N, v, N), ('r', N, v), (v, N), ('r', v, 'p'), (N, N, ('q', v)), (N, v)][case[2]]
        if clash([x for e in edges for x in e] + edges):
            rec.count('skipped_equal_in_python')
            return
        u = universe(edges[:12], patterns=[(N, N, N), (N, N), pattern])
        m = Model()
        self.step(hg, m, ('add', edges, 3), rec)
        self.step(hg, m, ('rbp', pattern), rec)
        self.observe(hg, m, u, 'remove_by_pattern(%s) with %s' % (short(pattern), short(edges)))
        rec.sample((edges, pattern))


def belief(s, e, *ts):
    return ('bel+', s, e) + ts


def unbelief(s, e):
    return ('bel-', s, e)


F1 = ('is', 'sky', 'blue')
F2 = ('is', 'blue', 'sky')
F3 = ('src/1', F1, 'mary')       # a fact about a fact
F4 = (F1, 'z')
L = F3
LL = ('src/1', L, 'john')


class B01(HistoryCheck):
    prop = 'B01'
    technique = TECH
    kinds = ('sources', 'exists', 'all', 'degree', 'star', 'f_all', 'timestamp')
    parts = ('history', 'tour', 'sources', 'alike', 'stamp', 'wide')
    rule = ('every sequence of beliefs added and removed, up to a depth, in each scenario; facts with many sources; every pair of '
            'an unusual source or word of a fact and others that look like it')

    def scenarios(self):
        return [
            Scenario('beliefs', [belief('mary', F1, 1), belief('mary', F2), belief('john', F1, 2), belief('john', multi(F1, F2), 3),
                                 unbelief('mary', F1), unbelief('john', F1), unbelief('mary', F2), add(F1, 4), rem(F1),
                                 unbelief('ann', F2)], 3, 4,
                     edges=[F1, F2] + [('src/1', f, s) for f in (F1, F2) for s in ('mary', 'john')]),
            Scenario('nested', [belief('mary', F1), belief('john', F3), belief('mary', multi(F4)), belief(7, F1, 0),
                                belief(('p', 'x'), F1, 5), belief(F1, multi(F2, F2)), unbelief('mary', F1), unbelief('john', F3),
                                unbelief('mary', F4), unbelief(7, F1), unbelief(('p', 'x'), F1), unbelief(F1, F2)], 3, 4,
                     edges=[F1, F2, F3, F4] + [('src/1', F1, 'mary'), ('src/1', F1, 7), ('src/1', F1, ('p', 'x')),
                                               ('src/1', F2, F1), ('src/1', F3, 'john'), ('src/1', F4, 'mary')]),
            Scenario('alike', [belief('a', ('r', 'x')), belief('a/1', ('r', 'x')), belief('ab', ('r', 'x', 'y')),
                               belief('b', ('r', 7)), belief('b', ('r', 'x', 7.5)), unbelief('a', ('r', 'x')),
                               unbelief('a/1', ('r', 'x')), unbelief('ab', ('r', 'x', 'y')), unbelief('b', ('r', 7)),
                               unbelief('b', ('r', 7.0)), unbelief('a', ('r', 'x', 'y'))], 3, 4,
                     edges=[('r', 'x'), ('r', 'x', 'y'), ('r', 7), ('r', 7.0)]),
            # beliefs about beliefs
            Scenario('about', [belief('mary', multi(L, F1), 1), belief('mary', multi(F1, L), 2), belief('mary', L), belief('john', multi(L, LL), 3),
                               belief('john', multi(LL, F1, L)), belief('src/1', multi(F1, ('src/1', F1, 'src/1'))), unbelief('mary', F1),
                               unbelief('mary', L), unbelief('john', L), unbelief('john', LL), unbelief('src/1', F1), rem(L)], 3, 4,
                     edges=[F1, L, LL, ('src/1', LL, 'john'), ('src/1', L, 'john'), ('src/1', F1, 'john'), ('src/1', F1, 'src/1'),
                            ('src/1', ('src/1', F1, 'src/1'), 'src/1')]),
        ]

    def touring(self):
        return [s for s in self.table.values() if self.thorough or s.name not in ('nested', 'about')]

    def blocks(self):
        for n in (1, 2, 10, 251, 1001, 2200):
            yield ('sources', n)
        for n in (2, 100, 251, 1001, 6000):
            yield ('facts', n)
        for n in range(2, 8 if self.thorough else 7):
            yield ('wide', n)
        for i in range(len(self.rich())):
            yield ('alike', i)
        for b in super().blocks():
            yield b

    def case_wide(self, hg, case, rec):
        n = case[1]
        facts = [('r',) + tuple('abcdefgh'[:n - 1]), ('r',) + ('a',) * (n - 1), ('r', 7, ('p', 'a'), 1.5, 'a', 'b', ('p', ('p', 'a')), 'c')[:n],
                 ('p', ('r',) + tuple('abcdefgh'[:n - 1]))]
        sources = ['mary', ('p', 'a'), 7]
        links = [('src/1', f, x) for f in facts for x in sources]
        u = universe(facts, extra_edges=links)
        for k in (1, 2, 3):
            m = Model()
            if k > 1:
                hg.destroy()
            for i, x in enumerate(sources[:k]):
                self.step(hg, m, belief(x, multi(*facts), i), rec)
                self.step(hg, m, belief(x, facts[0], i + 5), rec)
            self.observe(hg, m, u, 'with %s from %d sources' % (short(facts), k))
            for x in sources[:k][::-1]:
                for f in facts:
                    self.step(hg, m, unbelief(x, f), rec)
                self.observe(hg, m, u, 'with %s from %d sources, not from %s' % (short(facts), k, x))
        rec.sample(case)

    def case_alike(self, hg, case, rec):
        v = self.rich()[case[1]]
        looks = alike(v)[:4]
        facts = [('is', x, 'p') for x in [v] + looks]
        sources = [v] + looks + ['p']
        edges = facts + [('src/1', f, s) for f in facts for s in sources]
        if clash([x for e in edges for x in e] + edges):
            rec.count('skipped_equal_in_python')
            return
        u = universe(edges[:14], extra_edges=edges[14:])
        m = Model()
        for i, s in enumerate(sources):
            self.step(hg, m, belief(s, tuple(facts), i), rec)
        self.observe(hg, m, u, 'with beliefs of %s' % short(sources))
        for f in facts[:2]:
            for s in sources:
                self.step(hg, m, unbelief(s, f), rec)
                self.observe(hg, m, u, 'with beliefs of %s, without the one of %s in %s' % (short(sources), short(s), short(f)))
        rec.sample((v, looks))

    def case_facts(self, hg, case, rec):
        m = Model()
        n = case[1]
        facts = [('is', 'f/%d' % i) for i in range(n)]
        u = universe(facts[:2] + facts[-1:] + [('src/1', facts[0], 'mary'), ('src/1', facts[-1], 'john')], extra_vertices=['f/%d' % n])
        self.step(hg, m, belief('john', facts[-1], 2), rec)
        self.step(hg, m, belief('mary', facts, 3), rec)
        self.observe(hg, m, u, 'with %d facts' % n)
        self.step(hg, m, belief('john', tuple(facts[:n // 2])), rec)
        for f in facts[:20] + facts[-20:]:
            self.step(hg, m, unbelief('mary', f), rec)
        self.observe(hg, m, u, 'with %d facts' % n)
        rec.sample(case)

    def case_sources(self, hg, case, rec):
        m = Model()
        n = case[1]
        for i in range(n):
            op = belief('s/%d' % i, F1, i)
            perform(hg, op)
            apply(m, op)
        u = universe([F1, ('src/1', F1, 's/0')], extra_vertices=['s/%d' % (n - 1), 's/%d' % n])
        self.observe(hg, m, u, 'with %d sources' % n)
        if n > 300:
            # all but a few at once: removing a belief looks at all of its sources
            ops = [unbelief('s/0', F1), ('rem', [('src/1', F1, 's/%d' % i) for i in range(1, n - 2)])]
            ops += [unbelief('s/%d' % i, F1) for i in (n - 2, n - 1)]
        else:
            ops = [unbelief('s/%d' % i, F1) for i in range(n)]
        for i, op in enumerate(ops):
            perform(hg, op)
            apply(m, op)
            if i == 0 or i >= len(ops) - 2:
                self.observe(hg, m, u, 'with %d sources, after %s' % (n, short(ops[:i + 1])))
        rec.state(m.state())
        rec.count('transitions', 2 * n)
        rec.sample(case)


class B02(Check):
    """Cases: (limit, scenario, ops): the operations through a batch hypergraph with that limit, and a flush."""
    prop = 'B02'
    technique = TECH
    rule = ('every sequence of operations up to a depth and every buffer limit up to the length of the sequence, and around '
            'the default limit')
    assumptions = ['until the buffer is over its limit or is flushed, what has been added can be stored or not']
    kinds = EVERYTHING

    def scenarios(self):
        a, b, c = ('r', 'a', 'b'), ('r', 'b', 'a'), ('p', ('r', 'a', 'b'))
        return [
            Scenario('edges', [add(a, 1), add(b), add(multi(c, a), 3), add(multi(a, b, a)), add(c, 0), rem(a), rem(multi(b, c)),
                               ('destroy',), ('flush',), ('flush', 7)], 4, 5, patterns=[('r', N, N), (N, 'a', N)]),
            Scenario('others', [add(a, 1), belief('mary', F1, -5), belief('john', multi(F1, F2)), unbelief('mary', F1),
                                ('rbp', ('r', N, N)), ('batch', [rem(a), add(b, 5)]), add(multi(F1), 4), ('flush',),
                                unbelief('john', F1), ('batch', [('touch', [a, 'a'])])], 4, 5,
                     patterns=[('src/1', N, N)], edges=[a, b, F1, F2, ('src/1', F1, 'mary'), ('src/1', F2, 'john')]),
        ]

    def setup(self):
        self.table = {s.name: s for s in self.scenarios()}

    def depth(self, s):
        return s.more if self.thorough else s.depth

    def blocks(self):
        for n in (999, 1000, 1001, 1002, 2001, 2002, 2500):
            yield ('default', n)
        for s in self.table.values():
            for i in range(len(s.ops)):
                for j in range(len(s.ops)):
                    yield ('h', s.name, i, j)

    def cases(self, block):
        if block[0] == 'default':
            for how in ('one', 'all', 'halves', 'beliefs'):
                yield ('default', block[1], how)
            return
        s = self.table[block[1]]
        for d in range(2, self.depth(s) + 1):
            for rest in itertools.product(range(len(s.ops)), repeat=d - 2):
                for limit in (0, 1, 2, 1000) if d < self.depth(s) else (1, 1000):
                    yield (limit, s.name, block[2:] + rest)

    def run_case(self, case, rec):
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        hg = new_hg()
        try:
            if case[0] == 'default':
                self.default(hg, BatchHyperGraph(hg), case, rec)
            else:
                self.history(hg, BatchHyperGraph(hg, case[0]), case, rec)
            rec.count('traces_validated_against_impl')
        finally:
            close(hg)

    def history(self, hg, bhg, case, rec):
        limit, name, seq = case
        s = self.table[name]
        ops = [s.ops[i] for i in seq]
        m = Model()
        pending = []

        def flush(ts):
            for e, t in pending:
                m.add1(e, ts if t == -1 else t)
            del pending[:]

        for i, op in enumerate(ops):
            done = True
            if op[0] == 'flush':
                bhg.flush(*op[1:])
                flush(op[1] if len(op) > 1 else -1)
            else:
                perform(bhg, op)
                if op[0] == 'add':
                    es = op[1] if is_edge(op[1][0]) else [op[1]]
                    pending += [(e, op[2] if len(op) > 2 else -1) for e in es]
                elif op[0] == 'bel+':
                    es = op[2] if is_edge(op[2][0]) else [op[2]]
                    t = op[3] if len(op) > 3 else -1
                    pending += [x for e in es for x in ((e, t), (('src/1', e, op[1]), t))]
                elif op[0] == 'destroy':
                    del pending[:]
                    apply(m, op)
                else:
                    flush(-1)
                    apply(m, op)
                if len(pending) > limit:
                    flush(-1)
                done = not pending
            rec.count('transitions')
            rec.state((m.state(), tuple(pending)))
            if done and i >= len(ops) - 2:
                try:
                    observe(hg, m, s.u, self.kinds)
                except Mismatch as e:
                    raise Mismatch('limit %s, after %s, everything should be stored: %s' % (limit, short(ops[:i + 1]), e))
        for k in range(2):
            bhg.flush()
            flush(-1)
            try:
                observe(hg, m, s.u, self.kinds)
            except Mismatch as e:
                raise Mismatch('limit %s, %s and %d flushes: %s' % (limit, short(ops), k + 1, e))
        rec.sample((limit, ops))

    def default(self, hg, bhg, case, rec):
        _, n, how = case
        m = Model()
        edges = [('r', 'v%d' % i) for i in range(n)]
        model_limit = 1000
        pending = []
        stored = 0
        if how == 'all':
            groups = [edges]
        elif how == 'halves':
            groups = [edges[:n // 2], edges[n // 2:]]
        else:
            groups = [[e] for e in edges]
        for g in groups:
            if how == 'beliefs':
                bhg.add_belief('s', g[0], 3)
                pending += [g[0], ('src/1', g[0], 's')]
            else:
                bhg.add(g if len(g) > 1 else g[0], 3)
                pending += g
            if len(pending) > model_limit:
                for e in pending:
                    m.add1(e, 3)
                pending = []
                got = set(key(e) for e in hg.pattern2edges((N, N)))
                want = set(key(e) for e in m.pattern((N, N)))
                if got != want:
                    raise Mismatch('%d edges stored when the buffer is over its limit, should be %d' % (len(got), len(want)))
        bhg.flush()
        for e in pending:
            m.add1(e, 3)
        u = universe(edges[:2] + edges[-2:], patterns=[('r', N)])
        try:
            observe(hg, m, u, self.kinds)
        except Mismatch as e:
            raise Mismatch('%s with %d edges: %s' % (how, n, e))
        rec.count('transitions', n)
        rec.state(m.state())
        rec.sample(case)


class N01(Check):
    """Cases: sequences of operations with the null backend."""
    prop = 'N01'
    technique = TECH
    rule = 'every sequence of operations up to a depth, with everything asked after each'

    def setup(self):
        self.ops = sc.basic().ops[:4] + sc.nested().ops[5:9] + [
            belief('mary', F1, 2), belief('john', multi(F1, F2)), unbelief('mary', F1), ('rbp', ('is', N, N)), ('rbp', (N, N)),
            ('batch', [add(F1), rem(F1)]), ('batch', []), ('destroy',)]
        self.u = universe(sc.op_edges(self.ops), patterns=[(N, N), ('is', N, N), (N, F1), ('is', 'bob')], extra_vertices=[7, 7.0])

    def blocks(self):
        return [(i, j) for i in range(len(self.ops)) for j in range(len(self.ops))] + [('rich',), ('many',)]

    def cases(self, block):
        if block[0] == 'rich':
            vs = sc.rich_vertices()
            for i in range(len(vs)):
                yield ('rich', vs[i], vs[i - 1])
            return
        if block[0] == 'many':
            for n in (1, 10, 251, 1000, 1001, 3000):
                yield ('many', n)
            return
        yield (0, block[:1])
        for d in range(2, 5 if self.thorough else 4):
            for rest in itertools.product(range(len(self.ops)), repeat=d - 2):
                yield (0, block + rest)
        yield (1, block)
        yield (2, block)

    def run_case(self, case, rec):
        from gb.hypergraph.hypergraph import HyperGraph
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        import gb.hypergraph.queries as queries
        hg = HyperGraph({'backend': 'null'})
        if case[0] in ('rich', 'many'):
            if case[0] == 'rich':
                _, v, w = case
                ops = [add([('r', v, w)], 5), add([('r', w), (v, w)], 0), belief('mary', [(w, v)], 1), rem([('r', v, w)]), ('rbp', (N, v)),
                       ('destroy',)]
                u = universe([('r', v, w), (v, w), (w, v), ('r', w)], patterns=[(N, v), (v, N), ('r', N, w), (N, N)])
            else:
                edges = [('r', 'hub', i) for i in range(case[1])]
                ops = [add(edges, 5), ('batch', [add(e) for e in edges]), rem(edges)]
                u = universe(edges[:2] + edges[-2:], patterns=[('r', 'hub', N)])
            for i, op in enumerate(ops):
                perform(hg, op)
                observe(hg, Model(), u, EVERYTHING + ('sources',))
                rec.count('transitions')
            rec.count('traces_validated_against_impl')
            return
        target = hg if case[0] == 0 else BatchHyperGraph(hg, case[0] - 1)
        ops = [self.ops[i] for i in case[1]]
        empty = Model()
        for i, op in enumerate(ops):
            perform(target, op)
            rec.count('transitions')
            rec.state((case[0], tuple(case[1][:i + 1])))
            try:
                observe(target, empty, self.u, EVERYTHING + ('sources',))
                for v in ('bob', F1, 7):
                    for depth in (0, 1, 2):
                        if list(target.ego(v, depth)):
                            raise Mismatch('ego is not empty')
                if list(queries.intersect(target, ['bob', 'is'])):
                    raise Mismatch('intersect is not empty')
            except Mismatch as e:
                raise Mismatch('after %s: %s' % (short(ops[:i + 1]), e))
        if case[0]:
            target.flush()
            observe(target, empty, self.u, EVERYTHING)
        rec.count('traces_validated_against_impl')
        rec.sample(ops)
