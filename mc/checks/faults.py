"""S12: errors at every point of every operation."""
import itertools
import os
import sqlite3

import mc.dbwrap as db
from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, apply, perform, key, is_edge
from mc.histories import close
from mc.observe import universe, snapshot, model_snapshot, differs

N = None
A, B, C, D = ('r', 'a', 'b'), ('r', 'b', 'a'), ('p', ('r', 'a', 'b')), ('q', 'a', 7, 'a')
F = ('is', 'sky', 'blue')


class Fault(Exception):
    pass


class S12(Check):
    """Cases:
    ('call', error, initial, op): a storage error at each call to the database during an operation.
    ('full', initial, op): a database that cannot grow, for each size it could grow to.
    ('busy', initial, op): another connection holds the lock.
    ('fun', initial, ops, k, error): a function of a batch fails after k operations.
    ('list', initial, name, edges): a list with something that is not an edge.
    ('caught', initial, op, how, bad, op): a function of a batch catches the error of an operation, and goes on.
    ('caught_full', initial, op, pages, times): the same with a database that cannot grow.
    ('caught_call', initial, op, how): the same with a storage error at each call to the database during an operation.
    ('large', op, where): an operation with many edges, with a storage error at some call, something invalid at its end, a
        function that fails at its end, or a database that is full.
    ('flush', initial, ops): a storage error at each call while the buffer of a batch hypergraph is flushed."""
    prop = 'S12'
    level = 'fault_enumeration'
    technique = 'fault enumeration: an error at every database call of every operation, with real and injected errors'
    rule = ('every operation from every initial state, with an error at each of its calls to the database in turn (execute, '
            'fetch, commit), with the database full at each size, locked by another connection, with failing functions and '
            'invalid edges, also when the functions of a batch catch the error and go on; then every operation afterwards. Non-trivial: the error was raised to the caller.')
    assumptions = ['an injected error happens instead of the call, which has no effect', 'errors of rollback itself are not tried']
    timeout = 300

    def setup(self):
        db.install()
        self.ops = [('add', A, 3), ('add', D), ('add', [B, C, A], 4), ('rem', A), ('rem', [A, C, B]), ('destroy',),
                    ('rbp', ('r', N, N)), ('bel+', 'mary', F, 5), ('bel+', 'john', [F, A]), ('bel-', 'mary', F),
                    ('batch', [('add', A), ('rem', B), ('add', [C, D], 2)]), ('batch', [('touch', [A, 'a']), ('rem', A)]),
                    ('add', ('w', 'a', 'b', 'c'), 1), ('rem', ('w', 'a', 'b', 'c')), ('touch', [A, 'a', 7])]
        self.after = [('add', A, 8), ('rem', A), ('batch', [('add', B, 9), ('rem', D)]), ('bel-', 'mary', F), ('destroy',)]
        self.initial = [[], [('add', [A, B, C], 1), ('bel+', 'mary', F, 2)],
                        [('add', ('w', 'a', 'b', 'c'), 7), ('add', D, 1), ('add', C), ('bel+', 'mary', F), ('bel+', 'john', F)]]
        self.u = universe([A, B, C, D, F, ('src/1', F, 'mary'), ('src/1', F, 'john'), ('src/1', A, 'john'),
                           ('w', 'a', 'b', 'c')], extra_vertices=['c', 'z'], extra_edges=[('r', 'b')])
        self.scratch = None
        self.few = len(self.initial)
        n = self.many = 2101 if self.thorough else 1201
        es, more = [('hub', 'v/%d' % i) for i in range(n)], [('hub', 'w/%d' % i) for i in range(n)]
        self.initial += [[('add', A), ('bel+', 'mary', F, 1)], [('add', es, 3), ('bel+', 'mary', F, 2)]]
        self.large = [(self.few, ('add', es, 5)), (self.few + 1, ('rem', es)), (self.few, ('bel+', 'mary', es, 4)),
                      (self.few + 1, ('rbp', ('hub', N))), (self.few + 1, ('destroy',)),
                      (self.few + 1, ('batch', [('rem', es), ('add', more)])), (self.few, ('batch', [('add', e, 1) for e in es])),
                      (self.few + 1, ('batch', [('destroy',), ('add', more, 2)]))]

    def blocks(self):
        for o in range(len(self.large)):
            for w in ('call', 'invalid', 'full'):
                yield ('large', o, w)
        for i in range(self.few):
            for o in range(len(self.ops)):
                for e in ('OperationalError', 'IntegrityError', 'KeyboardInterrupt'):
                    yield ('call', e, i, o)
                yield ('full', i, o)
            yield ('busy', i)
            yield ('fun', i)
            yield ('list', i)
            yield ('flush', i)
            for o in range(len(self.ops)):
                yield ('caught', o, i)
                yield ('caught_call', o, i)
            yield ('caught_full', i)

    def cases(self, block):
        name, i = block[0], block[-1]
        if name in ('call', 'full', 'large'):
            yield block
        elif name == 'busy':
            for o in range(len(self.ops)):
                for lock in ('IMMEDIATE', 'EXCLUSIVE'):
                    yield ('busy', i, o, lock)
        elif name == 'fun':
            for ops in itertools.product(range(len(self.ops)) if self.thorough else (0, 2, 4, 6), range(len(self.ops))):
                for k in range(3):
                    for err in ('Fault', 'KeyboardInterrupt'):
                        for nested in (False, True):
                            if err == 'Fault' or (ops[0] == ops[1] and not nested):
                                yield ('fun', i, ops, k, err, nested)
        elif name == 'list':
            good = [A, B, D]
            bad = [5, None, 7.5]
            for op in ('add', 'rem', 'bel+'):
                for n in (1, 2, 3):
                    for es in itertools.permutations(good, n):
                        for b in bad:
                            for pos in range(1, n + 1):
                                yield ('list', i, op, es[:pos] + (b,) + es[pos:])
        elif name == 'caught':
            for bad in range(len(self.failing())):
                for how in ('function', 'nested', 'nested twice', 'hypergraph'):
                    for o in ((0, 3, 5, 6, 9, 10) if self.thorough else (2, 3)):
                        yield ('caught', i, block[1], how, bad, o)
        elif name == 'caught_full':
            for o in range(len(self.ops)):
                for extra in range(12):
                    for times in (1, 2):
                        yield ('caught_full', i, o, extra, times)
        elif name == 'caught_call':
            for how in ('function', 'nested') if self.thorough else ('function',):
                for err in ('OperationalError', 'KeyboardInterrupt') if self.thorough else ('OperationalError',):
                    yield ('caught_call', i, block[1], how, err)
        elif name == 'flush':
            for ops in itertools.product(range(4), repeat=2):
                yield ('flush', i, ops)

    # --- cases

    def run_case(self, case, rec):
        # the scratch directory is of the worker, and is removed by it after each case
        self.scratch = db.Scratch()
        db.hook = None
        db.timeout = 0.0
        try:
            getattr(self, 'case_' + case[0])(case, rec)
        finally:
            db.hook = None
            self.scratch.remove()

    def open(self, path):
        from gb.hypergraph.hypergraph import HyperGraph
        return HyperGraph({'backend': 'sqlite', 'db': path})

    def start(self, i):
        path = self.scratch.file()
        hg = self.open(path)
        m = Model()
        for op in self.initial[i]:
            perform(hg, op)
            apply(m, op)
        return path, hg, m

    def check(self, hg, path, m, before, text):
        """The hypergraph is as before, for this handle and for others."""
        for h, who in ((hg, 'the same handle'), (None, 'another handle')):
            h2 = h or self.open(path)
            got = snapshot(h2, self.u)
            if h is None:
                close(h2)
            if got != before:
                d = differs(got, model_snapshot(m, self.u)) or 'something that the model does not determine'
                raise Mismatch('%s: the hypergraph changed (%s): %s' % (text, who, d))

    def go_on(self, hg, path, m, text, rec):
        for op in self.after:
            try:
                perform(hg, op)
            except Exception as e:
                raise Mismatch('%s: then %s fails: %s: %s' % (text, short(op), type(e).__name__, e))
            apply(m, op)
            for h in (hg, None):
                h2 = h or self.open(path)
                d = differs(snapshot(h2, self.u), model_snapshot(m, self.u))
                if h is None:
                    close(h2)
                if d:
                    raise Mismatch('%s: then after %s: %s' % (text, short(op), d))

    def decide_one(self, case, rec, i, act, op, text, arm, disarm, follow=True):
        """Makes the error happen in a new hypergraph. Returns False if it did not happen."""
        path, hg, m = self.start(i)
        try:
            before = snapshot(hg, self.u)
            arm(hg, path)
            raised = None
            try:
                act(hg)
            except (Exception, KeyboardInterrupt) as e:
                raised = e
            fired = disarm(hg, path)
            rec.count('evaluations')
            if raised is None:
                # if the error was overcome, everything must be done
                apply(m, op)
                d = differs(snapshot(hg, self.u), model_snapshot(m, self.u))
                if d:
                    raise Mismatch('%s: it does not fail, but %s' % (text, d))
            else:
                rec.seen((case, text))
                if not fired:
                    raise Mismatch('%s: it fails without a reason: %s: %s' % (text, type(raised).__name__, raised))
                self.check(hg, path, m, before, text)
            if follow:
                self.go_on(hg, path, m, text, rec)
            return fired
        finally:
            close(hg)
            self.scratch.drop(path)

    def nth_call(self, n, err):
        state = {'n': 0, 'fired': False}
        exc = {'OperationalError': sqlite3.OperationalError, 'IntegrityError': sqlite3.IntegrityError,
               'KeyboardInterrupt': KeyboardInterrupt}[err]

        def hook(kind, conn, text):
            if kind == 'rollback' or state['fired']:
                return
            state['n'] += 1
            if state['n'] == n:
                state['fired'] = True
                raise exc('disk I/O error')

        def arm(hg, path):
            db.hook = hook

        def disarm(hg, path):
            db.hook = None
            return state['fired']

        return arm, disarm

    def case_call(self, case, rec):
        _, err, i, o = case
        op = self.ops[o]
        n = 0
        while True:
            n += 1
            arm, disarm = self.nth_call(n, err)
            fired = self.decide_one(case, rec, i, lambda hg: perform(hg, op), op,
                                    '%s at database call %d of %s, from %s' % (err, n, short(op), short(self.initial[i])), arm, disarm,
                                    follow=n % 4 == 1 or self.thorough)
            if not fired:
                break
        rec.count('fault_points', n - 1)
        rec.sample(case[1:] + (op,))

    def case_full(self, case, rec):
        _, i, o = case
        op = self.ops[o]
        if op[0] == 'touch':
            return
        for extra in range(0, 12):
            state = {}

            def arm(hg, path):
                c = hg.backend.conn
                pages = sqlite3.Connection.execute(c, 'PRAGMA page_count').fetchone()[0]
                sqlite3.Connection.execute(c, 'PRAGMA max_page_count=%d' % (pages + extra))

            def disarm(hg, path):
                sqlite3.Connection.execute(hg.backend.conn, 'PRAGMA max_page_count=1000000')
                return True

            big = ('add', [('big', 'x' * 700, 'y%d' % k) for k in range(3)] + [A], 3)
            what = op if o else big
            self.decide_one(case, rec, i, lambda hg: perform(hg, what), what,
                            'database full with %d more pages in %s, from %s' % (extra, short(what, 100), short(self.initial[i])),
                            arm, disarm)
        rec.sample((case, op))

    def case_large(self, case, rec):
        _, o, where = case
        i, op = self.large[o]
        text = 'of %s with %d edges' % (short(op, 60), self.many)
        if where == 'call':
            path, hg, m = self.start(i)
            kinds = []
            db.hook = lambda kind, conn, text: kinds.append(kind)
            perform(hg, op)
            db.hook = None
            close(hg)
            self.scratch.drop(path)
            total = len(kinds)
            points = {1, 2, 3, total // 7, total // 3, total // 2, total - total // 5} | set(range(total - 4, total + 1))
            # after anything that could be final
            points |= {k + 2 for k, kind in enumerate(kinds) if kind == 'commit'}
            for n in sorted(p for p in points if 0 < p <= total)[:40]:
                arm, disarm = self.nth_call(n, 'OperationalError')
                self.decide_one(case, rec, i, lambda hg: perform(hg, op), op, 'error at database call %d of %d %s' % (n, total, text), arm, disarm,
                                follow=n == total // 2)
            rec.count('fault_points', len(points))
        elif where == 'full':
            for extra in (0, 2, 9, 40):
                def arm(hg, path):
                    c = hg.backend.conn
                    pages = sqlite3.Connection.execute(c, 'PRAGMA page_count').fetchone()[0]
                    sqlite3.Connection.execute(c, 'PRAGMA max_page_count=%d' % (pages + extra))

                def disarm(hg, path):
                    sqlite3.Connection.execute(hg.backend.conn, 'PRAGMA max_page_count=1000000')
                    return True

                self.decide_one(case, rec, i, lambda hg: perform(hg, op), op, 'database full with %d more pages in the middle %s' % (extra, text),
                                arm, disarm, follow=extra == 2)
        else:
            def fail(_):
                raise Fault('a function fails')

            def act(hg):
                if op[0] in ('add', 'rem'):
                    perform(hg, op[:1] + (op[1] + [5],) + op[2:])
                elif op[0] == 'bel+':
                    perform(hg, op[:2] + (op[2] + [5],) + op[3:])
                else:
                    hg.batch_exec([lambda b: perform(hg, op), fail])
            self.decide_one(case, rec, i, act, op, 'a failure at the end %s' % text, lambda hg, path: None, lambda hg, path: True)
        rec.sample(case)

    def case_busy(self, case, rec):
        _, i, o, lock = case
        op = self.ops[o]
        state = {}

        def arm(hg, path):
            state['other'] = db.plain(path)
            state['other'].execute('BEGIN %s' % lock)

        def disarm(hg, path):
            state['other'].rollback()
            state['other'].close()
            return True

        self.decide_one(case, rec, i, lambda hg: perform(hg, op), op,
                        'database locked (%s) in %s, from %s' % (lock, short(op), short(self.initial[i])), arm, disarm)
        rec.sample((case, op))

    def case_fun(self, case, rec):
        _, i, idx, k, err, nested = case
        ops = [self.ops[j] for j in idx]
        exc = Fault if err == 'Fault' else KeyboardInterrupt

        def fail(_):
            raise exc('a function fails')

        def act(hg):
            funs = [(lambda b, op=op: perform(hg, op)) for op in ops]
            funs.insert(k, fail)
            if nested:
                hg.batch_exec([funs[0], lambda b: b.batch_exec(funs[1:])])
            else:
                hg.batch_exec(funs)

        self.decide_one(case, rec, i, act, ('batch', ops), '%s in function %d of a batch of %s, from %s' % (
            err, k, short(ops), short(self.initial[i])), lambda hg, path: None, lambda hg, path: True, follow=k == 1)
        rec.sample(case)

    def failing(self):
        """Operations that fail, what they did before that must be undone."""
        def fail(_):
            raise Fault('a function fails')

        return [('addition of a list with 5 in it', lambda b: b.add([('n', 'o', 'p'), 5], 9)),
                ('addition of a list with 5 in it', lambda b: b.add([A, D, C, 5], 9)),
                ('removal of a list with 5 in it', lambda b: b.remove([B, A, 5])),
                ('batch that fails at the end', lambda b: b.batch_exec([lambda c: c.destroy(), lambda c: c.add(D, 4), fail])),
                ('batch that fails at the end', lambda b: b.batch_exec([lambda c: c.remove([A, C]), lambda c: c.batch_exec([
                    lambda d: d.add([D, ('n', 'o')], 3)]), fail])),
                ('batch in another that fails', lambda b: b.batch_exec([lambda c: c.add(B), lambda c: c.batch_exec([
                    lambda d: d.add([D, ('n', 'o')], 3), fail])]))]

    def in_batch(self, hg, how, funs):
        if how == 'nested':
            hg.batch_exec([lambda b: b.batch_exec(funs)])
        elif how == 'nested twice':
            hg.batch_exec([lambda b: b.batch_exec([lambda c: c.batch_exec(funs)])])
        elif how == 'hypergraph':
            hg.batch_exec([lambda b, f=f: f(hg) for f in funs])
        else:
            hg.batch_exec(funs)

    def case_caught(self, case, rec):
        _, i, o, how, bad, o2 = case
        name, fail = self.failing()[bad]
        op, op2 = self.ops[o], self.ops[o2]
        path, hg, m = self.start(i)
        text = '%s, %s (caught), and %s in a batch (%s), from %s' % (short(op), name, short(op2), how, short(self.initial[i]))
        try:
            def attempt(b):
                before = snapshot(b, self.u)
                try:
                    fail(b)
                except Exception:
                    rec.seen((case, text))
                    if snapshot(b, self.u) != before:
                        raise Mismatch('%s: inside of the batch the failed operation changed something: %s' % (
                            text, differs(snapshot(b, self.u), before)))
                    return
                raise Mismatch('%s: it does not fail' % text)

            self.in_batch(hg, how, [lambda b: perform(hg, op), attempt, lambda b: perform(hg, op2)])
            rec.count('evaluations')
            apply(m, op)
            apply(m, op2)
            for h in (hg, None):
                h2 = h or self.open(path)
                d = differs(snapshot(h2, self.u), model_snapshot(m, self.u))
                if h is None:
                    close(h2)
                if d:
                    raise Mismatch('%s: %s' % (text, d))
            self.go_on(hg, path, m, text, rec)
        finally:
            close(hg)
            self.scratch.drop(path)
        rec.sample(case)

    def case_caught_full(self, case, rec):
        _, i, o, extra, times = case
        op = self.ops[o]
        big = ('add', [('big', 'x' * 700, 'y%d' % k) for k in range(3)] + [A], 3)
        text = 'database full with %d more pages in %s (caught), after %s in a batch, from %s' % (
            extra, short(big, 60), short(op), short(self.initial[i]))
        path, hg, m = self.start(i)
        try:
            before = snapshot(hg, self.u)
            done = []

            def attempt(b):
                c = hg.backend.conn
                pages = sqlite3.Connection.execute(c, 'PRAGMA page_count').fetchone()[0]
                sqlite3.Connection.execute(c, 'PRAGMA max_page_count=%d' % (pages + extra))
                for t in range(times):
                    try:
                        perform(hg, big)
                        done.append(big)
                    except sqlite3.Error:
                        rec.seen((case, t))
                sqlite3.Connection.execute(c, 'PRAGMA max_page_count=1000000')

            try:
                hg.batch_exec([lambda b: perform(hg, op), attempt, lambda b: perform(hg, ('add', D, 7))])
            except sqlite3.Error:
                # the database can end the whole transaction
                self.check(hg, path, m, before, text + ' (the batch fails)')
            else:
                for x in [op] + done + [('add', D, 7)]:
                    apply(m, x)
                self.check(hg, path, m, snapshot(hg, self.u), text)
                d = differs(snapshot(hg, self.u), model_snapshot(m, self.u))
                if d:
                    raise Mismatch('%s (the batch does not fail): %s' % (text, d))
            rec.count('evaluations')
            self.go_on(hg, path, m, text, rec)
        finally:
            close(hg)
            self.scratch.drop(path)
        rec.sample(case)

    def case_caught_call(self, case, rec):
        _, i, o, how, err = case
        op, n = self.ops[o], 0
        while True:
            n += 1
            path, hg, m = self.start(i)
            arm, disarm = self.nth_call(n, err)
            text = '%s (caught) at database call %d of %s in a batch, from %s' % (err, n, short(op), short(self.initial[i]))
            raised = []
            try:
                def attempt(b):
                    arm(hg, path)
                    try:
                        perform(hg, op)
                    except (Exception, KeyboardInterrupt) as e:
                        raised.append(e)
                    finally:
                        fired.append(disarm(hg, path))

                fired = []
                self.in_batch(hg, how, [lambda b: perform(b, ('add', B, 6)), attempt, lambda b: perform(b, ('add', D, 7))])
                rec.count('evaluations')
                apply(m, ('add', B, 6))
                if raised:
                    rec.seen((case, text))
                    if not fired[0]:
                        raise Mismatch('%s: it fails without a reason: %s' % (text, raised[0]))
                else:
                    apply(m, op)
                apply(m, ('add', D, 7))
                for h in (hg, None):
                    h2 = h or self.open(path)
                    d = differs(snapshot(h2, self.u), model_snapshot(m, self.u))
                    if h is None:
                        close(h2)
                    if d:
                        raise Mismatch('%s: %s' % (text, d))
            finally:
                close(hg)
                self.scratch.drop(path)
            if not fired[0]:
                break
        rec.count('fault_points', n - 1)
        rec.sample(case)

    def case_list(self, case, rec):
        _, i, name, edges = case

        def act(hg):
            if name == 'add':
                hg.add(list(edges), 5)
            elif name == 'rem':
                hg.remove(list(edges))
            else:
                hg.add_belief('mary', list(edges), 5)

        path, hg, m = self.start(i)
        try:
            before = snapshot(hg, self.u)
            text = '%s of %s, from %s' % (name, short(edges), short(self.initial[i]))
            rec.count('evaluations')
            try:
                act(hg)
            except Exception:
                rec.seen(case)
                self.check(hg, path, m, before, text)
                self.go_on(hg, path, m, text, rec)
        finally:
            close(hg)
            self.scratch.drop(path)
        rec.sample(case)

    def case_flush(self, case, rec):
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        _, i, idx = case
        adds = [('add', A, 3), ('add', [B, C, D], 4), ('bel+', 'john', F, 5), ('add', D)]
        ops = [adds[j] for j in idx]
        n = 0
        while True:
            n += 1
            path, hg, m = self.start(i)
            bhg = BatchHyperGraph(hg, 50)
            before = snapshot(hg, self.u)
            for op in ops:
                perform(bhg, op)
            arm, disarm = self.nth_call(n, 'OperationalError')
            arm(hg, path)
            text = 'error at database call %d of a flush of %s, from %s' % (n, short(ops), short(self.initial[i]))
            raised = False
            try:
                bhg.flush()
            except sqlite3.OperationalError:
                raised = True
            fired = disarm(hg, path)
            rec.count('evaluations')
            if raised:
                rec.seen((case, n))
                self.check(hg, path, m, before, text)
                # nothing is lost: the next flush stores it all
                bhg.flush()
            for op in ops:
                apply(m, op)
            d = differs(snapshot(hg, self.u), model_snapshot(m, self.u))
            if d:
                raise Mismatch('%s: then after another flush: %s' % (text, d))
            close(hg)
            self.scratch.drop(path)
            if not fired:
                break
        rec.sample((case, ops))
