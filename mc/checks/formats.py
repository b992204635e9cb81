"""S15: databases that are already there."""
import itertools
import shutil
import sqlite3

import mc.dbwrap as db
import mc.scenarios as sc
from mc.core import Check, Mismatch, short
from mc.graph import Graph
from mc.hgmodel import Model, apply, perform, key, is_edge
from mc.histories import close
from mc.observe import observe, unkey, EVERYTHING

N = None


def text(v):
    """The written form of a vertex."""
    if is_edge(v):
        return '(%s)' % ' '.join(text(x) for x in v)
    return str(v)


def words(k):
    """The written form, from the key of a vertex."""
    if k[0] == 'e':
        return '(%s)' % ' '.join(words(x) for x in k[1:])
    return k[1] if k[0] in 'sf' else str(k[1])


VERTICES = {'id': 'CREATE TABLE vertices (id TEXT PRIMARY KEY)',
            'degree': 'ALTER TABLE vertices ADD COLUMN degree INTEGER DEFAULT 0',
            'timestamp': 'ALTER TABLE vertices ADD COLUMN timestamp INTEGER DEFAULT -1'}
PERMS = 'CREATE TABLE perms (id TEXT PRIMARY KEY)'

# which tables and columns there are
SCHEMAS = {
    'nothing': (),
    'ids': ('id',),
    'degrees': ('id', 'degree'),
    'vertices': ('id', 'degree', 'timestamp'),
    'ids, perms': ('id', 'perms'),
    'degrees, perms': ('id', 'degree', 'perms'),
    'perms': ('perms',),
    'all': ('id', 'degree', 'timestamp', 'perms'),
}


def fits(m, schema):
    """Can the content of the model be in that schema, without losing anything?"""
    ts = [t for t in m.first.values() if t is not None and t != -1]
    if 'timestamp' not in schema and ts:
        return False
    if ('degree' not in schema or 'perms' not in schema) and m.edges:
        return False
    return 'id' in schema or not m.first


def write(path, m, schema):
    """A database with that content, as an earlier version would have left it."""
    conn = db.plain(path)
    for c in ('id', 'degree', 'timestamp'):
        if c in schema:
            conn.execute(VERTICES[c])
    if 'perms' in schema:
        conn.execute(PERMS)
    degrees = m.vertices()
    for k in {**m.first, **degrees}:
        if k[0] == 'e' and k not in m.edges and not degrees.get(k):
            # a removed edge leaves nothing
            continue
        row = {'id': words(k)}
        if 'degree' in schema:
            row['degree'] = degrees.get(k, 0)
        if 'timestamp' in schema:
            row['timestamp'] = m.first.get(k, -1)
            if row['timestamp'] is None:
                row['timestamp'] = 1
        conn.execute('INSERT INTO vertices (%s) VALUES (%s)' % (','.join(row), ','.join('?' * len(row))), list(row.values()))
    for e, _ in m.edges.values():
        for i, p in enumerate(itertools.permutations([text(x) for x in e])):
            conn.execute('INSERT OR IGNORE INTO perms (id) VALUES (?)', ('%s %d' % (' '.join(p), i),))
    conn.commit()
    conn.close()


class S15(Check):
    """Cases:
    ('state', scenario, state, schema): a database with the content of that state, then each operation.
    ('fault', scenario, state, schema, kind): opening meets an error at each of its calls, or a locked database."""
    prop = 'S15'
    technique = 'explicit-state exploration: every reachable state written independently as a database, opened by the real code'
    rule = ('every reachable state of each scenario, written directly as the tables of a database, with every subset of the tables '
            'and columns that can hold it, is opened; everything is asked, then after each operation, and after opening again. '
            'Opening with an error at each of its calls, and with the database locked.')
    assumptions = ['an injected error happens instead of the call']
    acting = ('basic', 'nested', 'wide', 'prefixes', 'extremes')

    def setup(self):
        db.install()
        self.table = {s.name: s for s in sc.common() + [sc.extremes()]}
        self.graphs = {s.name: Graph(s.ops) for s in self.table.values()}
        self.scratch = None
        # a small scenario for the errors
        a, b = ('r', 'a', 'b'), ('s', ('r', 'a', 'b'), 7)
        self.table['few'] = f = sc.Scenario('few', [sc.add(a), sc.add(b), sc.rem(a), sc.rem(b), ('destroy',), sc.add(a, 5)], 2,
                                            patterns=[('r', N, N), (N, N, 7)])
        self.graphs['few'] = Graph(f.ops)

    def describe(self):
        return {'bounds': {n: {'states': len(g.models), 'operations': len(g.ops) if self.acts(n) else 0}
                           for n, g in self.graphs.items()},
                'schemas': list(SCHEMAS)}

    def acts(self, name):
        return self.thorough or name in self.acting or name == 'few'

    def blocks(self):
        for x in range(len(self.graphs['few'].models)):
            yield ('fault', 'few', x)
        for name, g in self.graphs.items():
            k = 20 if self.acts(name) else 100
            for start in range(0, len(g.models), k):
                yield ('state', name, start, min(start + k, len(g.models)))

    def cases(self, block):
        if block[0] == 'fault':
            _, name, x = block
            for schema, cols in SCHEMAS.items():
                if fits(self.graphs[name].models[x], cols):
                    for kind in ('OperationalError', 'DatabaseError', 'KeyboardInterrupt', 'IMMEDIATE', 'EXCLUSIVE'):
                        yield ('fault', name, x, schema, kind)
        else:
            _, name, start, end = block
            for x in range(start, end):
                for schema, cols in SCHEMAS.items():
                    if fits(self.graphs[name].models[x], cols):
                        yield ('state', name, x, schema)

    def run_case(self, case, rec):
        self.scratch = db.Scratch()
        db.hook = None
        try:
            getattr(self, 'case_' + case[0])(case, rec)
            rec.count('traces_validated_against_impl')
        finally:
            db.hook = None
            db.timeout = None
            self.scratch.remove()

    def open(self, path):
        from gb.hypergraph.hypergraph import HyperGraph
        return HyperGraph({'backend': 'sqlite', 'db': path})

    def ask(self, hg, m, u, where):
        try:
            observe(hg, m, u, EVERYTHING)
        except Mismatch as e:
            raise Mismatch('%s: %s' % (where, e))

    def case_state(self, case, rec):
        _, name, x, schema = case
        s, g = self.table[name], self.graphs[name]
        m = g.models[x]
        base = self.scratch.file()
        write(base, m, SCHEMAS[schema])
        where = 'a database with %s, that holds %s' % (schema, short([(e, ts) for e, ts in m.edges.values()]))
        path = self.scratch.file()
        shutil.copyfile(base, path)
        rec.state((name, x))
        for again in ('', ' (opened again)'):
            hg = self.open(path)
            self.ask(hg, m, s.u, where + again)
            close(hg)
        self.scratch.drop(path)
        if not self.acts(name):
            rec.count('transitions')
            return
        for o, op in enumerate(s.ops):
            if g.next[x][o] is None:
                continue
            path = self.scratch.file()
            shutil.copyfile(base, path)
            hg = self.open(path)
            perform(hg, op)
            n = g.models[g.next[x][o]]
            self.ask(hg, n, s.u, '%s, after %s' % (where, short(op)))
            close(hg)
            self.scratch.drop(path)
            rec.count('transitions')
        rec.sample(where)

    def case_fault(self, case, rec):
        _, name, x, schema, kind = case
        s, g = self.table[name], self.graphs[name]
        m = g.models[x]
        base = self.scratch.file()
        write(base, m, SCHEMAS[schema])
        n = 0
        fired = True
        while fired:
            n += 1
            path = self.scratch.file()
            shutil.copyfile(base, path)
            where = '%s %s opening a database with %s, that holds %s' % (
                kind, 'at call %d of' % n, schema, short([(e, ts) for e, ts in m.edges.values()]))
            hg, fired = self.opened(path, kind, n)
            rec.count('openings')
            if hg is not None:
                # it says that it is open, so it is
                try:
                    self.use(hg, g, x, s, where + ', which does not fail')
                finally:
                    close(hg)
            else:
                hg = self.open(path)
                self.use(hg, g, x, s, where + ', opened again')
                close(hg)
            hg = self.open(path)
            self.ask(hg, g.models[self.end], s.u, where + ', opened at the end')
            close(hg)
            self.scratch.drop(path)
            if kind in ('IMMEDIATE', 'EXCLUSIVE'):
                break

    def use(self, hg, g, x, s, where):
        self.ask(hg, g.models[x], s.u, where)
        for o in range(len(s.ops)):
            perform(hg, s.ops[o])
            x = g.next[x][o]
            self.ask(hg, g.models[x], s.u, '%s, after %s' % (where, short(s.ops[:o + 1])))
        self.end = x

    def opened(self, path, kind, n):
        """The hypergraph, or None if it fails; and whether the error happened."""
        other = None
        state = {'n': 0, 'fired': False}
        if kind in ('IMMEDIATE', 'EXCLUSIVE'):
            other = db.plain(path)
            other.execute('BEGIN %s' % kind)
            db.timeout = 0.0
        else:
            exc = {'OperationalError': sqlite3.OperationalError, 'DatabaseError': sqlite3.DatabaseError,
                   'KeyboardInterrupt': KeyboardInterrupt}[kind]

            def hook(k, conn, sql):
                if k == 'rollback' or state['fired']:
                    return
                state['n'] += 1
                if state['n'] == n:
                    state['fired'] = True
                    raise exc('disk I/O error')

            db.hook = hook
        hg = None
        try:
            hg = self.open(path)
        except (sqlite3.Error, KeyboardInterrupt) as e:
            if other is None and not state['fired']:
                raise Mismatch('opening fails without a reason: %s' % e)
        finally:
            db.hook = None
            db.timeout = None
            if other is not None:
                other.rollback()
                other.close()
        return hg, state['fired']
