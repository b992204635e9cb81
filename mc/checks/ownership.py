"""S16: arguments and results are of the caller."""
import itertools

from mc.core import Check, Mismatch, short
from mc.graph import Graph
from mc.hgmodel import Model, apply, perform, key, keys, is_edge
from mc.histories import close, new_hg
from mc.observe import universe, observe, same, EVERYTHING
from mc.scenarios import Scenario, add, rem, multi

N = None
A, B, C, D = ('r', 'a', 'b'), ('s', ('r', 'a', 'b')), ('r', 'b', ('t', 7, ('r', 'a', 'b'))), ('r', 'a')


def lists(x, how=(list,)):
    """The same, with collections of other kinds: one for each level, the last one for the rest."""
    if isinstance(x, (list, tuple)):
        return how[0](lists(y, how[1:] or how) for y in x)
    return x


def spoil(x):
    """Changes everything in it that can be changed."""
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.reverse()
            x.append('spoiled')
            x[0] = 'spoiled/1'
    elif isinstance(x, set):
        if len(x) > 1:
            x.pop()
        x.add(('spoiled', 'x'))
    elif isinstance(x, dict):
        x.clear()
        x['spoiled'] = 1


class Caller:
    """A hypergraph used by someone who changes everything that is given to it or comes from it."""

    def __init__(self, hg, how):
        self.hg = hg
        self.how = how

    def call(self, name, *args):
        mine = [lists(a, self.how) if is_edge(a) else a for a in args]
        before = repr(mine)
        res = getattr(self.hg, name)(*mine)
        if repr(mine) != before:
            raise Mismatch('%s changes what it is given: %s becomes %s' % (name, before, short(mine)))
        for a in mine:
            spoil(a)
        return res

    def taken(self, name, *args):
        res = self.call(name, *args)
        mine = list(res)
        spoil(res)
        # at once, in case it is the same collection
        again = self.call(name, *args)
        if keys(again) != keys(mine):
            raise Mismatch('%s%s answers something else after its result is changed: %s' % (name, short(args), short(again)))
        spoil(again)
        return mine

    def add(self, *args):
        # may return what it was given
        self.call('add', *args)

    def add_belief(self, *args):
        self.call('add_belief', *args)

    def remove(self, *args):
        return self.call('remove', *args)

    def remove_belief(self, *args):
        return self.call('remove_belief', *args)

    def remove_by_pattern(self, *args):
        return self.call('remove_by_pattern', *args)

    def destroy(self):
        return self.hg.destroy()

    def flush(self):
        return self.hg.flush()

    def batch_exec(self, funs):
        mine = list(funs)
        n = len(mine)
        self.hg.batch_exec(mine)
        if len(mine) != n:
            raise Mismatch('batch_exec changes what it is given')
        del mine[:]

    def exists(self, *args):
        return self.call('exists', *args)

    def degree(self, *args):
        return self.call('degree', *args)

    def timestamp(self, *args):
        return self.call('timestamp', *args)

    def star(self, *args):
        return self.taken('star', *args)

    def pattern2edges(self, *args):
        return self.taken('pattern2edges', *args)

    def symbols_with_root(self, *args):
        return self.taken('symbols_with_root', *args)

    def sources(self, *args):
        return self.taken('sources', *args)

    def ego(self, *args):
        return self.taken('ego', *args)

    def f_all(self, f):
        def g(vmap):
            if isinstance(vmap['vertex'], list):
                raise Mismatch('f_all gives a list: %s' % short(vmap))
            res = f(dict(vmap))
            spoil(vmap)
            return res

        return self.hg.f_all(g)


HOWS = {'lists': (list,), 'tuples': (tuple,), 'list of tuples': (list, tuple), 'tuple of lists': (tuple, list),
        'lists of tuples of lists': (list, tuple, list), 'tuples of lists of tuples': (tuple, list, tuple)}


class S16(Check):
    """Cases:
    ('tour', kind, how, limit, part, parts): every operation from every reachable state, the arguments given in that form.
    ('history', kind, how, limit, ops): the operations through a batch hypergraph, then a flush.
    ('null', how, ops): operations on the backend that stores nothing.
    ('intersect', edges, seeds)."""
    prop = 'S16'
    technique = 'explicit-state exploration of operation histories on the real code, by a caller that changes arguments and results'
    rule = ('every operation from every reachable state of the scenario, and every sequence of operations through a batch hypergraph '
            'with each buffer limit, with each kind of collection as arguments; all that was given and all that was returned '
            'is compared with what it was, then changed by the caller, and everything is asked twice')
    assumptions = ['arguments are lists or tuples']

    def setup(self):
        ops = [add(A, 1), add(multi(B, C), 1), add(C, 1), rem(A), rem(multi(C, B)), ('rbp', ('r', N)), ('rbp', ('s', ('r', 'a', 'b'))),
               ('bel+', 'm', A, 1), ('bel+', 'm', multi(D, B), 1), ('bel-', 'm', A), ('batch', [add(A, 1), rem(D)]), ('destroy',)]
        self.s = Scenario('owner', ops, 3, patterns=[('r', N, N), (N, A), (N, N, ('t', 7, A)), (N, N), ('src/1', A, N)],
                          edges=[A, B, C, D, ('src/1', A, 'm'), ('src/1', D, 'm'), ('src/1', B, 'm')])
        self.g = Graph(ops)

    def describe(self):
        return {'bounds': {'states': len(self.g.models), 'transitions': self.g.transitions(), 'buffered_depth': self.depth()}}

    def depth(self):
        return 4 if self.thorough else 3

    def blocks(self):
        for how in HOWS:
            k = max(1, len(self.g.models) // 40)
            for i in range(k):
                yield ('tour', how, i, k)
            for o in range(len(self.s.ops)):
                yield ('history', how, o)
            yield ('null', how)
        yield ('intersect',)

    def cases(self, block):
        if block[0] == 'history':
            for d in range(1, self.depth() + 1):
                for rest in itertools.product(range(len(self.s.ops)), repeat=d - 1):
                    for limit in (1, 1000):
                        yield ('history', block[1], limit, (block[2],) + rest)
        elif block[0] == 'null':
            for ops in itertools.product(range(len(self.s.ops)), repeat=2):
                yield ('null', block[1], ops)
        elif block[0] == 'intersect':
            es = [A, B, D, ('q', 'b', 'c'), ('q', 'c', 'a')]
            for n in range(len(es) + 1):
                for edges in itertools.combinations(es, n):
                    for m in (1, 2, 3):
                        for seeds in itertools.permutations(['a', 'b', 'c', A], m):
                            yield ('intersect', edges, seeds)
        else:
            yield block

    def run_case(self, case, rec):
        hg = new_hg()
        try:
            getattr(self, 'case_' + case[0])(hg, case, rec)
            rec.count('traces_validated_against_impl')
        finally:
            close(hg)

    def ask(self, c, m, where):
        for again in ('', ', asked again'):
            try:
                observe(c, m, self.s.u, EVERYTHING + ('sources',))
                for v in ('a', A, 7):
                    same('ego(%s, 2)' % (v,), c.ego(v, 2), m.ego(v, 2))
            except Mismatch as e:
                raise Mismatch('%s%s: %s' % (where, again, e))

    def case_tour(self, hg, case, rec):
        _, how, part, parts = case
        c = Caller(hg, HOWS[how])
        done = []
        for x, o in self.g.tour(part, parts):
            if x is None:
                c.destroy()
                continue
            done.append(self.s.ops[o])
            perform(c, self.s.ops[o])
            rec.count('transitions')
            rec.state((how, x))
            self.ask(c, self.g.models[self.g.next[x][o]], 'with %s as arguments, after %d operations, the last ones %s' % (
                how, len(done), short(done[-5:])))
        rec.sample(done[-5:])

    def case_history(self, hg, case, rec):
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        _, how, limit, seq = case
        c = Caller(BatchHyperGraph(hg, limit), HOWS[how])
        ops = [self.s.ops[o] for o in seq]
        x = 0
        for o, op in zip(seq, ops):
            perform(c, op)
            x = self.g.next[x][o]
            rec.count('transitions')
        c.flush()
        self.ask(Caller(hg, HOWS[how]), self.g.models[x], 'with %s as arguments and a buffer of %d, after %s and a flush' % (
            how, limit, short(ops)))
        rec.sample(ops)

    def case_null(self, hg, case, rec):
        from gb.hypergraph.hypergraph import HyperGraph
        _, how, seq = case
        c = Caller(HyperGraph({'backend': 'null'}), HOWS[how])
        for o in seq:
            perform(c, self.s.ops[o])
            rec.count('transitions')
        self.ask(c, Model(), 'null backend, with %s as arguments, after %s' % (how, short([self.s.ops[o] for o in seq])))

    def case_intersect(self, hg, case, rec):
        from gb.hypergraph.queries import intersect
        _, edges, seeds = case
        hg.add([('x', 'y')] + list(edges))
        m = Model()
        m.add([('x', 'y')] + list(edges))
        mine = list(seeds)
        first = intersect(hg, mine)
        if mine != list(seeds):
            raise Mismatch('intersect changes what it is given: %s becomes %s' % (short(seeds), short(mine)))
        want = keys(first)
        spoil(first)
        if keys(intersect(hg, mine)) != want or keys(intersect(hg, tuple(seeds))) != want:
            raise Mismatch('intersect(%s) with %s answers something else when it is asked again' % (short(seeds), short(edges)))
        observe(hg, m, self.s.u, ('all', 'degree'))
        rec.count('transitions')
        rec.sample(case)
