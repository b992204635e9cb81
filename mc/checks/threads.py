"""S13: several handles at the same time."""
import itertools
import os
import shutil
import sqlite3

import mc.dbwrap as db
import mc.sched as sched
from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, apply, perform, query, answers, key, keys
from mc.histories import close
from mc.observe import universe, snapshot, model_snapshot, differs, observe, visit_changing

N = None
A, B, C = ('r', 'a'), ('s', 'a'), ('p', ('r', 'a'))
T = ('r', 'a', 'b')
F = ('is', 'b')


class Seen(BaseException):
    """Goes through the code under test."""


class S13(Check):
    """Cases: (initial, program of each thread, bound): all the schedules with that number of preemptions.
    A failing case is (initial, programs, bound, choices).
    ('seen', many, op): another handle asks, before each database call of a large operation.
    ('changed', many, query, op): another handle makes an operation before one of the database calls of a query with a large
    result, for each of them (or some of them, when many).
    ('held', many, at, inside, op): another handle makes an operation while an enumeration is half way, by who is visiting."""
    prop = 'S13'
    technique = 'stateless model checking: all interleavings of database calls up to a preemption bound, with linearizability'
    rule = ('every pair of operations of a list in two threads, and chosen programs with more operations or threads, from each '
            'initial state: all schedules of their database calls with a bounded number of preemptions. Every schedule must be '
            'explained by the operations one at a time, in an order compatible with real time.')
    assumptions = ['only database calls are visible to others', 'an operation that waits for a lock is resumed when it is free, '
                   'as with the default timeout of SQLite', 'threads with a connection each behave as processes']
    timeout = 600

    def setup(self):
        db.install()
        self.initial = [[], [('add', A, 1), ('add', C, 2), ('bel+', 'm', F, 3)]]
        self.mut = [('add', A, 5), ('add', [B, A], 6), ('rem', A), ('rem', [C, A]), ('destroy',), ('rbp', ('r', N)),
                    ('bel+', 'm', F, 7), ('bel-', 'm', F), ('batch', [('add', C, 8), ('rem', A)]), ('add', T, 9),
                    ('bel-', 'j', F)]
        self.qs = [('q', 'exists', A), ('q', 'degree', 'a'), ('q', 'star', 'a'), ('q', 'f_all'), ('q', 'pattern', (N, N)),
                   ('q', 'timestamp', A), ('q', 'sources', F), ('open',)]
        self.u = universe([A, B, C, T, F, ('src/1', F, 'm'), ('src/1', F, 'j')], extra_vertices=['m', 'j', 'z'])
        m, q = self.mut, self.qs
        self.longer = [
            # two operations each
            ([m[0], m[2]], [m[2], m[0]]), ([m[0], q[1]], [m[1], q[1]]), ([m[0], q[2]], [m[2], q[3]]),
            ([m[8], m[0]], [m[8], m[2]]), ([m[6], m[7]], [('bel+', 'j', F), m[10]]), ([m[4], m[0]], [m[1], q[3]]),
            ([m[5], m[0]], [m[9], q[2]]), ([q[0], q[0]], [m[0], m[2]]), ([q[1], q[2]], [m[3], m[1]]), ([m[0], m[0]], [m[4], q[1]]),
            ([q[6], m[7]], [('bel+', 'j', F), q[6]]),
            # three threads
            ([m[0]], [m[0]], [m[0]]), ([m[0]], [m[1]], [m[2]]), ([m[6]], [m[7]], [('bel+', 'j', F)]), ([m[0]], [m[2]], [q[2]]),
            ([m[8]], [m[1]], [q[1]]), ([m[4]], [m[0]], [q[3]]), ([m[7]], [m[10]], [m[6]]),
        ]
        if self.thorough:
            pick = [m[0], m[1], m[2], m[4], m[5], m[7], m[8], q[1], q[2]]
            self.longer += [([a, b], [c]) for a in pick for b in pick for c in pick if c[0] != 'q']

    def describe(self):
        return {'bounds': {'preemptions_in_pairs': self.bound(2), 'preemptions_in_longer_programs': self.bound(3)}}

    def bound(self, n):
        return (3 if self.thorough else 2) if n == 2 else (2 if self.thorough else 1)

    def blocks(self):
        for i in range(len(self.initial)):
            for a in range(len(self.mut)):
                for b in range(a, len(self.mut)):
                    yield (i, ([self.mut[a]], [self.mut[b]]), self.bound(2))
                for q in self.qs:
                    yield (i, ([self.mut[a]], [q]), self.bound(2))
            for p in self.longer:
                yield (i, p, self.bound(3))
        yield ('new', ([('open',), ('add', A, 1)], [('open',), ('add', A, 1)]), self.bound(2))
        yield ('new', ([('open',)], [('open',), ('add', B, 1)], [('open',)]), self.bound(3))

        for n in (0, 1, 3, 40, 1201):
            yield ('held', n)
        for n in self.many():
            for i in range(len(self.large(n))):
                yield ('seen', n, i)
            for q in range(len(self.asked(n))):
                for o in range(len(self.writes(n))):
                    yield ('changed', n, q, o)

    def cases(self, block):
        if block[0] == 'held':
            n = block[1]
            for o in range(len(self.mut) + (len(self.writes(n)) if n > 1 else 0)):
                for at in sorted({0, 1, n // 2, n}):
                    for inside in (False, True):
                        yield ('held', n, at, inside, o)
            return
        yield block

    # --- large operations

    def many(self):
        return (40, 1201, 5200) if self.thorough else (40, 1201)

    def hub(self, n):
        return [('hub', 'v/%d' % i) for i in range(n)]

    def large(self, n):
        """(initial, operation)."""
        es = self.hub(n)
        more = [('hub', 'w/%d' % i) for i in range(n)]
        return [([], ('add', es, 3)), ([('add', es, 3)], ('rem', es)), ([('add', es, 3)], ('rbp', ('hub', N))), ([('add', es, 3)], ('destroy',)),
                ([('add', es[:9])], ('batch', [('add', es[:n // 2], 4), ('rem', es[:5]), ('add', es, 5)])),
                ([('add', more)], ('batch', [('rem', more), ('add', es)])), ([], ('bel+', 'm', es, 2)),
                ([('add', more[::2])], ('batch', [('add', e, 2) for e in es])),
                ([('add', es)], ('batch', [('destroy',), ('add', more, 3)]))]

    def asked(self, n):
        return [('q', 'star', 'hub'), ('q', 'pattern', ('hub', N)), ('q', 'pattern', (N, N)), ('q', 'f_all'), ('q', 'roots', 'v'), ('q', 'degree', 'hub'),
                ('q', 'sources', F)]

    def writes(self, n):
        es = self.hub(n)
        return [('rem', [es[0], es[n // 2], es[-1]]), ('add', [('hub', 'a'), ('hub', 'v/%d' % n), ('hub', 'zz')], 2), ('destroy',),
                ('batch', [('rem', [es[1], es[-2]]), ('add', [('hub', 'a'), ('hub', 'zz')])])]

    def run_large(self, case, rec):
        from gb.hypergraph.hypergraph import HyperGraph
        scratch = db.Scratch()
        db.hook, db.timeout = None, 0.0
        path = scratch.file()
        handles = []

        def opened():
            handles.append(HyperGraph({'backend': 'sqlite', 'db': path}))
            return handles[-1]
        try:
            if case[0] == 'held':
                self.case_held(case, opened, rec)
            elif case[0] == 'seen':
                self.case_seen(case, opened, rec)
            else:
                self.case_changed(case, opened, rec)
        finally:
            db.hook = None
            for h in handles:
                close(h)
            scratch.remove()
        rec.seen(case)
        rec.sample(case)

    def look(self, hg, n, m=None):
        """What tells apart before and after a large operation."""
        es = self.hub(n)
        h = hg or m
        ds = {v: h.degree(v) for v in ('hub', 'v/1', 'v/%d' % (n - 1), 'w/0')}
        return {'exists': {e: bool(h.exists(e)) for e in (es[1], es[-1], ('hub', 'w/0'))}, 'degree': ds}

    def case_held(self, case, opened, rec):
        _, n, at, inside, o = case
        op = (self.mut + (self.writes(n) if n > 1 else []))[o]
        hg, other = opened(), opened()
        m = Model()
        for x in self.initial[1] + ([('add', self.hub(n), 3)] if n else []):
            perform(hg, x)
            apply(m, x)
        m2 = m.copy()
        apply(m2, op)
        kept = []

        def change():
            # also another enumeration that nobody ends
            it = iter(other.f_all(lambda x: x))
            next(it, None)
            kept.append(it)
            perform(other, op)
            kept.append(opened())
        try:
            visit_changing(hg, change, at, inside, m, m2)
        except sqlite3.OperationalError as e:
            raise Mismatch('with %d edges, %s by another handle while an enumeration is at %d: %s' % (n, short(op), at, e))
        perform(hg, ('add', ('after', 'all'), 9))
        apply(m2, ('add', ('after', 'all'), 9))
        for h in (hg, other):
            observe(h, m2, self.u, ('exists', 'degree', 'star', 'f_all'))
        rec.count('transitions')

    def case_seen(self, case, opened, rec):
        _, n, i = case
        initial, op = self.large(n)[i]
        hg, other = opened(), opened()
        m = Model()
        for x in initial:
            perform(hg, x)
            apply(m, x)
        before = self.look(None, n, m)
        apply(m, op)
        after = self.look(None, n, m)
        seen = [before]
        busy = []

        def hook(kind, conn, text):
            if busy:
                return
            busy.append(1)
            try:
                got = self.look(other, n)
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e):
                    raise
                # it would wait
                rec.count('waits')
                return
            finally:
                busy.pop()
            rec.count('transitions')
            if got != seen[-1]:
                seen.append(got)
            # several queries, between which nothing else happens
            if got not in (before, after) or len(seen) > 2:
                raise Seen('during %s of %d, from %s, another handle sees %s, it was %s and should become %s' % (
                    short(op, 60), n, short(initial, 60), got, before, after))
        db.hook = hook
        try:
            perform(hg, op)
        except Seen as e:
            raise Mismatch(str(e))
        db.hook = None
        for h in (hg, other):
            if self.look(h, n) != after or keys(h.pattern2edges((N, N))) != keys(m.pattern((N, N))):
                raise Mismatch('after %s of %d, from %s: %s' % (short(op, 60), n, short(initial, 60), self.look(h, n)))
        rec.count('traces_validated_against_impl')

    def case_changed(self, case, opened, rec):
        _, n, iq, io = case
        q, op = self.asked(n)[iq], self.writes(n)[io]
        beliefs = ('add', [('src/1', F, 'm%d' % i) for i in range(n)])
        initial = [('add', self.hub(n), 3), ('add', F)] + ([beliefs] if q[1] == 'sources' else [])
        if q[1] == 'sources':
            op = [('rem', [beliefs[1][0], beliefs[1][-1]]), ('add', [('src/1', F, 'a'), ('src/1', F, 'zz')]), ('destroy',), ('bel-', 'm7', F)][io]
        m = Model()
        hg, other = opened(), opened()
        for x in initial:
            perform(hg, x)
            apply(m, x)
        m2 = m.copy()
        apply(m2, op)
        count = {'n': 0}

        def counting(kind, conn, text):
            count['n'] += 1
        db.hook = counting
        if not answers(m, q, query(hg, q)):
            raise Mismatch('with %d edges, %s answers something else' % (n, short(q)))
        db.hook = None
        calls = count['n']
        at = range(1, calls + 1)
        if calls > 30:
            at = sorted(set(at[:8]) | set(at[-8:]) | set(at[::max(1, calls // 12)]))
        for k in at:
            state = {'n': 0, 'on': True, 'done': False}

            def change(kind, conn, text):
                if not state['on']:
                    return
                state['n'] += 1
                if state['n'] == k:
                    state['on'] = False
                    try:
                        perform(other, op)
                        state['done'] = True
                    except sqlite3.OperationalError as e:
                        if 'locked' not in str(e):
                            raise
                        rec.count('waits')
            db.hook = change
            got = query(hg, q)
            db.hook = None
            rec.count('transitions')
            # it may ask less the second time
            possible = [m, m2] if state['done'] else [m]
            if not any(answers(x, q, got) for x in possible):
                raise Mismatch('with %d edges, and %s by another handle before database call %d of %s, it answers neither as before nor as after: %s' % (
                    n, short(op), k, short(q), short(got)))
            if not state['done']:
                perform(other, op)
            if not answers(m2, q, query(hg, q)):
                raise Mismatch('with %d edges, after %s by another handle during %s, %s answers something else' % (n, short(op), short(q), short(q)))
            # as it was
            perform(other, ('destroy',))
            for x in initial:
                perform(other, x)
            if not answers(m, q, query(hg, q)):
                raise Mismatch('with %d edges, after an erasure and the same additions by another handle, %s answers something else' % (n, short(q)))
        rec.count('traces_validated_against_impl', len(at))

    def block(self, block, rec):
        if block[0] in ('seen', 'changed', 'held'):
            for c in self.cases(block):
                if not self.attempt(c, rec):
                    return
            return
        self.found = None
        msg = self.decide(block, rec)
        if msg is not None:
            rec.fail(self.found or block, msg)

    def run_case(self, case, rec):
        if case[0] in ('seen', 'changed', 'held'):
            self.run_large(case, rec)
            return
        scratch = db.Scratch()
        db.hook = None
        db.timeout = 0.0
        try:
            base = self.base(case[0], scratch)
            if len(case) > 3:
                self.judge(case, self.execute(case, base, scratch, list(case[3])), rec)
                return
            outcomes = set()

            def visit(s):
                rec.count('transitions', s.steps)
                rec.count('traces_validated_against_impl')
                rec.state((case, [t[1] for t in s.trace]))
                self.found = case + ([t[1] for t in s.trace],)
                outcomes.add(self.judge(case, s, rec))

            n, complete = sched.explore(lambda ch: self.execute(case, base, scratch, ch), case[2], visit)
            rec.count('programs')
            rec.count('distinct_outcomes', len(outcomes))
            rec.sample({'programs': case[1], 'schedules': n, 'last': [t[1] for t in s_last(self)]})
        finally:
            db.around = None
            scratch.remove()

    def base(self, initial, scratch):
        """A database to copy in each execution."""
        path = scratch.file()
        if initial != 'new':
            from gb.hypergraph.hypergraph import HyperGraph
            hg = HyperGraph({'backend': 'sqlite', 'db': path})
            for op in self.initial[initial]:
                perform(hg, op)
            close(hg)
        return path

    def execute(self, case, base, scratch, choices):
        from gb.hypergraph.hypergraph import HyperGraph
        path = scratch.file()
        if case[0] != 'new':
            shutil.copyfile(base, path)
        log = []
        handles = {}

        def body(program):
            def f(w):
                s = w.sched
                if case[0] != 'new':
                    # before the schedule starts
                    handles[w.tid] = HyperGraph({'backend': 'sqlite', 'db': path})
                w.pause()
                try:
                    for i, op in enumerate(program):
                        begin = s.tick()
                        res = None
                        if op[0] == 'open':
                            if w.tid in handles:
                                close(handles[w.tid])
                            handles[w.tid] = HyperGraph({'backend': 'sqlite', 'db': path})
                        elif op[0] == 'q':
                            res = query(handles[w.tid], op)
                        else:
                            perform(handles[w.tid], op)
                        log.append((w.tid, i, op, begin, s.tick(), res))
                finally:
                    if w.tid in handles:
                        close(handles[w.tid])
            return f

        s = sched.Schedule([body(p) for p in case[1]], choices)
        s.run()
        s.log = log
        s.path = path
        s.errors = [(w.tid, w.error) for w in s.workers if w.error is not None]
        if not s.errors:
            hg = HyperGraph({'backend': 'sqlite', 'db': path})
            s.final = snapshot(hg, self.u)
            close(hg)
        scratch.drop(path)
        self.last = s
        return s

    def judge(self, case, s, rec):
        """Is there an order of the operations that explains everything?"""
        text = 'programs %s from %s, schedule %s' % (short(case[1]), case[0] if case[0] == 'new' else short(self.initial[case[0]]),
                                                     ''.join(str(t[1]) for t in s.trace))
        if s.errors:
            tid, e = s.errors[0]
            raise Mismatch('%s: thread %d fails: %s: %s' % (text, tid, type(e).__name__, e))
        m = Model()
        if case[0] != 'new':
            for op in self.initial[case[0]]:
                apply(m, op)
        ops = sorted(s.log)
        why = []

        def go(todo, m, order):
            if not todo:
                d = differs(s.final, model_snapshot(m, self.u))
                if d is None:
                    return order
                why.append(d)
                return None
            for x in todo:
                # x can be next if nothing that is left ended before it began
                if any(y[4] < x[3] for y in todo if y is not x):
                    continue
                rest = [y for y in todo if y is not x]
                if x[2][0] == 'q':
                    if not answers(m, x[2], x[5]):
                        why.append('%s answers %s' % (short(x[2]), short(x[5])))
                        continue
                    r = go(rest, m, order + ((x[0], x[1]),))
                else:
                    m2 = m.copy()
                    if x[2][0] != 'open':
                        apply(m2, x[2])
                    r = go(rest, m2, order + ((x[0], x[1]),))
                if r is not None:
                    return r
            return None

        order = go(ops, m, ())
        if order is None:
            raise Mismatch('%s: no order of the operations explains the results (%s)' % (text, '; '.join(why[:4])))
        return order


def s_last(check):
    return check.last.trace
