"""M01, C01: the MySQL backend, the choice of the backend and the command line."""
import itertools
import os
import shutil
import tempfile

import mc.fakes as fakes
import mc.scenarios as sc
from mc.core import Check, Mismatch, short
from mc.hgmodel import Model, apply, perform, key, keys
from mc.histories import HistoryCheck
from mc.observe import observe, universe, EVERYTHING, differs, snapshot, model_snapshot
from mc.scenarios import add, rem, multi

N = None
SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') else tempfile.gettempdir()
# names, users and passwords
UNUSUAL = ['A', 'a-b', 'a_b', ' a', 'a ', 'a b', "it's", 'a"b', 'a`b', 'a@b', 'a%b', 'a%s', 'a%%', '%', 'a:b', 'a;b', 'a?b', 'a=b', 'a&b',
           'a#b', 'a.b', 'a.db', '~', '~a', '$HOME', '${a}', 'a\\b', '-a', '--a', '0', '7', '007', '1.50', 'None', 'null', 'True', 'root', 'sqlite',
           'mysql', 'localhost', 'gb2', '\u00e9\u00df', '\u4e2d', '\U0001f600', 'x' * 200, 'a\tb', 'a,b', '(a)', '[::1]', '10.0.0.1', 'H.Example.ORG']
DB = {'backend': 'mysql', 'host': 'localhost', 'user': 'u', 'password': 'p', 'db': 'd'}


def hypergraph(params):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph(dict(params))


class M01(HistoryCheck):
    """More cases:
    ('two', ops): operations through two connections, taking turns; what can be asked is asked through both after each.
    ('connect', given, right): connecting with some parameters to a server that expects others."""

    prop = 'M01'
    technique = 'explicit-state exploration of operation histories on the real backend over a stand-in of the driver'
    parts = ('history', 'tour', 'rich', 'arity', 'large', 'set', 'stamp')
    assumptions = ['the stand-in of the driver of MySQL, which keeps its data in SQLite, has the conventions of the real one: '
                   'placeholders, autocommit, rows affected only if they change, classes of errors, implicit commits',
                   'collations and the limit of the prefix of the primary keys of a real server are not covered']
    rule = HistoryCheck.rule + '; after each operation nothing waits for a commit, and at the end everything is asked through ' \
        'another connection too; every sequence of operations through two connections; every combination of parameters'

    def setup(self):
        super().setup()
        fakes.install(mysql=True)
        import gb.hypergraph.hypergraph  # noqa

    def depth_each(self, s):
        return 3 if self.thorough else 2

    def depth_end(self, s):
        return 4 if self.thorough else 3

    def set_size(self):
        return 3 if self.thorough else 2

    def rich(self):
        vs = super().rich()
        return vs if self.thorough else vs[::2]

    def new_hg(self):
        fakes.server = fakes.Server()
        fakes.server.grant('localhost', 'u', 'p', 'd')
        return hypergraph(DB)

    def close(self, hg):
        fakes.server.close()

    def touring(self):
        return [s for s in self.table.values() if self.thorough or s.name in ('basic', 'numbers', 'by_pattern')]

    def after(self, hg, op):
        if op[0] != 'touch' and fakes.server.dbs['d'].in_transaction:
            raise Mismatch('%s returns before its changes are committed' % short(op))

    def case_history(self, hg, case, rec):
        _, name, mode, seq = case
        s = self.table[name]
        super().case_history(hg, case, rec)
        at = 0
        for i in seq:
            at = self.graph(s).next[at][i]
        self.observe(hypergraph(DB), self.graph(s).models[at], s.u, 'through a new connection, after %s' % short([s.ops[i] for i in seq]))

    # --- two connections

    def two_ops(self):
        a, b, c = ('r', 'a', 'b'), ('q', ('r', 'a', 'b'), 7), ('r', 'b', 'a')
        return [add(a, 1), add(multi(b, c), 2), rem(a), rem(multi(c)), ('destroy',), ('bel+', 'src/1', a, 4),
                ('bel-', 'src/1', a), ('rbp', ('r', N, N)), ('batch', [add(a, 5), rem(c)])]

    def blocks(self):
        n = len(self.two_ops())
        for i in range(2 * n):
            for j in range(2 * n):
                yield ('two', (i, j))
        for h in (True, False):
            for u in (True, False):
                yield ('connect', h, u)
        for i in range(4):
            yield ('unusual', i)
        yield from super().blocks()

    def cases(self, block):
        if block[0] == 'two':
            n = 2 * len(self.two_ops())
            for k in range(0, 3 if self.thorough else 2):
                for rest in itertools.product(range(n), repeat=k):
                    yield ('two', block[1] + rest)
        elif block[0] == 'unusual':
            # alone, and in any two of the parameters
            base = ['localhost', 'u', 'p', 'd']
            for x in UNUSUAL:
                for j in range(block[1], 4):
                    for y in UNUSUAL if j > block[1] else (x,):
                        given = base[:]
                        given[block[1]], given[j] = x, y
                        yield ('connect', tuple(given), tuple(given))
        elif block[0] == 'connect':
            hosts, users, pws, dbs = ['localhost', 'h2', '127.0.0.1'], ['u', 'p', ''], ['p', 'u', '', "x'"], ['d', 'u', 'e']
            for given in itertools.product(hosts, users, pws, dbs):
                for right in itertools.product(hosts, users, pws, dbs):
                    if (given[0] == right[0]) == block[1] and (given[1] == right[1]) == block[2]:
                        if sum(x != y for x, y in zip(given, right)) <= 1 or given[0] == hosts[0]:
                            yield ('connect', given, right)
        else:
            yield from super().cases(block)

    def run_case(self, case, rec):
        if case[0] == 'two':
            self.case_two(case, rec)
        elif case[0] == 'connect':
            self.case_connect(case, rec)
        else:
            super().run_case(case, rec)

    def case_two(self, case, rec):
        ops = self.two_ops()
        u = universe([('r', 'a', 'b'), ('q', ('r', 'a', 'b'), 7), ('r', 'b', 'a'), ('src/1', ('r', 'a', 'b'), 'src/1')],
                     patterns=[('r', N, N), (N, N, 7), (N, N, N)])
        d = tempfile.mkdtemp(prefix='mc-', dir=SCRATCH)
        fakes.server = fakes.Server(d)
        try:
            fakes.server.grant('localhost', 'u', 'p', 'd')
            hgs = [hypergraph(DB), hypergraph(DB)]
            m = Model()
            for pos, i in enumerate(case[1]):
                hg, op = hgs[i // len(ops)], ops[i % len(ops)]
                perform(hg, op)
                apply(m, op)
                rec.count('transitions')
                rec.state(m.state())
                for j, x in enumerate(hgs):
                    try:
                        observe(x, m, u, ('timestamp', 'star', 'all', 'exists', 'degree', 'f_all'))
                    except Mismatch as e:
                        raise Mismatch('through connection %d after %s: %s' % (
                            j, short([(k // len(ops), ops[k % len(ops)]) for k in case[1][:pos + 1]]), e))
            rec.count('traces_validated_against_impl')
        finally:
            fakes.server.close()
            shutil.rmtree(d)

    def case_connect(self, case, rec):
        _, given, right = case
        fakes.server = server = fakes.Server()
        try:
            server.grant(*right)
            server.grant('other', 'other', 'other', 'd')
            server.grant('other', 'other', 'other', 'gb')
            # 'd' is another database of the same account
            before = {x: server.tables(x) for x in server.dbs}
            params = dict(zip(('host', 'user', 'password', 'db'), given), backend='mysql')
            try:
                hg = hypergraph(params)
                hg.add(('is', 'x', 'y'), 3)
                failed = None
            except Exception as e:
                failed = e
            rec.count('transitions')
            if given == right:
                if failed is not None:
                    raise Mismatch('connecting with %r fails: %r' % (given, failed))
                if not server.log or server.log[-1] != given:
                    raise Mismatch('it connects with %r instead of %r' % (server.log, given))
                if not hypergraph(params).exists(('is', 'x', 'y')):
                    raise Mismatch('what was stored is not in the database %r' % (given,))
            elif failed is None:
                raise Mismatch('it connects with %r when given %r' % (right, given))
            for x in server.log:
                if x != given:
                    raise Mismatch('it tries to connect with %r when given %r' % (x, given))
            for x in before:
                if not (given == right and x == given[3]) and server.tables(x) != before[x]:
                    raise Mismatch('connecting with %r changes the database %s' % (given, x))
            rec.count('traces_validated_against_impl')
            rec.state(case)
        finally:
            server.close()


def files(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


STORED = [(('is', 'graphbrain/1', 'great'), 5), (('p', ('is', 'a', 'b'), 7), 6)]
U = universe([e for e, _ in STORED] + [('is', 'a', 'b'), ('is', 'x', 'y')], patterns=[(N, N, N), ('is', N, N)])


class C01(Check):
    """Cases:
    ('name', backend): creating a hypergraph with the name of a backend.
    ('dbs', names): databases with these names, one after the other.
    ('cli', command, options, before): a command, with options, with what there was in the databases."""

    prop = 'C01'
    technique = 'exhaustive enumeration of configurations, commands and sequences of them on the real code'
    rule = 'every backend name, every sequence of names of databases, every command with every combination of options over new ' \
        'and existing databases, and every sequence of two commands'
    assumptions = ['the command line is run in the process of the check, with the arguments given to the function of the library '
                   'of command lines', 'the MySQL driver and the WordNet corpus are stand-ins']

    NAMES = ['gb.db', 'a', 'a.db', 'A.db', 'ab', 'sub/gb.db', './a', 'a b.db', "it's.db", 'x;y', 'x%sy', 'x?y', '\u00e9.db', '-', 'a-journal2',
             'null', 'mysql', ':memory:']
    MORE = NAMES + sorted(set(UNUSUAL).difference(NAMES)) + [
        'sub/../a', 'sub/a', 'a.sqlite', 'a.DB', 'memory']
    BAD = ['', 'SQLite', 'SQLITE', 'sqlite3', ' sqlite', 'sqlite ', 'mongo', 'leveldb', 'MySQL', 'Null', 'sql', 'backend', 'sqlit', 'my',
           None, 0, 1, (), True]

    def setup(self):
        fakes.install(mysql=True, wordnet=True)
        import gb.gbrain  # noqa
        from click.testing import CliRunner
        self.runner = CliRunner
        self.limit = 4 if self.thorough else 3

    def options(self):
        res = []
        for backend in (None, 'sqlite', 'mysql', 'null', 'bogus'):
            for db in (None, 'gb.db', 'x.db', 'sub/y.db'):
                for user in (None, 'gb', 'u'):
                    for pw in (None, 'gb', 'p'):
                        res.append((('backend', backend), ('db', db), ('dbuser', user), ('dbpass', pw)))
        return res

    def blocks(self):
        for b in ['sqlite', 'mysql', 'null'] + self.BAD:
            yield ('name', b)
        for n in self.MORE:
            yield ('dbs', n)
        for k in ('db', 'dbuser', 'dbpass'):
            yield ('unusual', k)
        for c in ('create', 'wordnet', 'shell'):
            for before in ('none', 'empty', 'full'):
                for order in ('forward', 'reverse'):
                    yield ('cli', c, before, order)
        for b in ('sqlite', 'mysql', 'null'):
            yield ('commands', b)

    def cases(self, block):
        if block[0] == 'name':
            yield block
        elif block[0] == 'dbs':
            for k in range(1, self.limit):
                for rest in itertools.product(self.MORE if k == 1 else self.NAMES, repeat=k):
                    if k == 1 or block[1] in self.NAMES:
                        yield ('dbs', (block[1],) + rest)
        elif block[0] == 'unusual':
            base = (('backend', 'mysql'), ('db', None), ('dbuser', None), ('dbpass', None))
            for x in UNUSUAL:
                for backend in ('mysql', 'sqlite'):
                    o = dict(base, backend=backend)
                    o[block[1]] = x
                    for before in ('none', 'full'):
                        yield ('cli', 'create', tuple(o.items()), before, 'reverse')
        elif block[0] == 'cli':
            for o in self.options():
                yield ('cli', block[1], o, block[2], block[3])
        else:
            for k in range(1, 4 if self.thorough else 3):
                for seq in itertools.product(('create', 'wordnet', 'shell'), repeat=k):
                    for before in ('none', 'full'):
                        yield ('commands', block[1], seq, before)

    def run_case(self, case, rec):
        d = tempfile.mkdtemp(prefix='mc-', dir=SCRATCH)
        cwd = os.getcwd()
        fakes.server = fakes.Server()
        self.opened = []
        try:
            os.mkdir(os.path.join(d, 'sub'))
            os.chdir(d)
            getattr(self, 'case_' + case[0])(d, case, rec)
            rec.count('traces_validated_against_impl')
            rec.state(case)
        finally:
            os.chdir(cwd)
            for hg in self.opened:
                try:
                    hg.backend.conn.close()
                except Exception:
                    pass
            fakes.server.close()
            shutil.rmtree(d)

    def open(self, params):
        hg = hypergraph(params)
        self.opened.append(hg)
        return hg

    def check(self, hg, m, where):
        why = differs(snapshot(hg, U), model_snapshot(m, U))
        if why:
            raise Mismatch('%s: %s' % (where, why))

    # --- creating hypergraphs

    def case_name(self, d, case, rec):
        name = case[1]
        fakes.server.grant('localhost', 'u', 'p', 'gb.db')
        params = dict(DB, backend=name, db='gb.db')
        rec.count('transitions')
        if name in self.BAD:
            try:
                self.open(params)
            except Exception as e:
                if files(d) or fakes.server.tables('gb.db'):
                    raise Mismatch('the backend %r is refused but the database was changed' % (name,))
                return
            raise Mismatch('the backend %r is not refused' % (name,))
        hg = self.open(params)
        m = Model()
        self.check(hg, m, 'new %s' % name)
        for e, ts in STORED:
            hg.add(e, ts)
            if name != 'null':
                apply(m, ('add', e, ts))
        self.check(hg, m, name)
        self.check(self.open(params), m, '%s, opened again' % name)
        if (files(d) != []) != (name == 'sqlite'):
            raise Mismatch('the files %s are created by the backend %s' % (files(d), name))
        if (fakes.server.tables('gb.db') != {}) != (name == 'mysql') or (fakes.server.log != []) != (name == 'mysql'):
            raise Mismatch('the backend %s should%s use the server' % (name, '' if name == 'mysql' else ' not'))

    def case_dbs(self, d, case, rec):
        """Each edge in a database; the same name is the same database."""
        models, memory, handles = {}, None, []
        for i, name in enumerate(case[1]):
            params = {'backend': 'sqlite', 'db': name}
            hg = self.open(params)
            handles.append((name, hg))
            k = os.path.normpath(name) if name != ':memory:' else (name, i)
            m = models.setdefault(k, Model())
            self.check(hg, m, 'opening %r in %s' % (name, short(case)))
            op = add(('is', 'x', 'n/%d' % i), i)
            perform(hg, op)
            apply(m, op)
            rec.count('transitions')
        u = universe([('is', 'x', 'n/%d' % i) for i in range(len(case[1]))], patterns=[(N, N, N)])
        for i, (name, hg) in enumerate(handles):
            k = os.path.normpath(name) if name != ':memory:' else (name, i)
            why = differs(snapshot(hg, u), model_snapshot(models[k], u))
            if why:
                raise Mismatch('%r, of %s: %s' % (name, short(case), why))
        names = sorted(k for k in models if isinstance(k, str))
        extra = [f for f in files(d) if f not in names and not any(f.startswith(n) for n in names)]
        if extra or [n for n in names if n not in files(d)]:
            raise Mismatch('databases named %s are in the files %s' % (names, files(d)))

    # --- command line

    def lexicon(self):
        a = fakes.Synset('dog.n.01', 'n', ['dog', 'domestic_dog'])
        b = fakes.Synset('animal.n.01', 'n', ['animal'])
        a.related['hypernyms'] = [b]
        return [a, b]

    def read(self, m):
        for e in [('pos/gb', 'dog/wn.dog.n.01', 'noun/gb'), ('synonym/gb', 'dog/wn.dog.n.01', 'domestic_dog/wn.dog.n.01'),
                  ('hypernym/gb', 'dog/wn.dog.n.01', 'animal/wn.animal.n.01'), ('pos/gb', 'animal/wn.animal.n.01', 'noun/gb')]:
            apply(m, ('bel+', 'wordnet/gb', e))

    def command(self, args):
        import gb.gbrain
        fakes.corpus.synsets_list = self.lexicon()
        return self.runner().invoke(gb.gbrain.cli, args)

    def world(self, before, o={}):
        """The databases that there are, one of them with something."""
        models = {}
        for k, db in enumerate(('gb.db', 'x.db', 'sub/y.db') + ((o['db'],) if o.get('db') in UNUSUAL else ())):
            fakes.server.grant('localhost', 'gb', 'gb', db)
            fakes.server.grant('localhost', 'u', 'p', db)
            if o.get('dbuser') in UNUSUAL or o.get('dbpass') in UNUSUAL:
                fakes.server.grant('localhost', o['dbuser'] or 'gb', o['dbpass'] or 'gb', db)
            for params in ({'backend': 'sqlite', 'db': db}, {'backend': 'mysql', 'db': db, 'host': 'localhost', 'user': 'gb',
                                                             'password': 'gb'}):
                m = models[(params['backend'], db)] = Model()
                if before != 'none':
                    hg = self.open(params)
                    for e, ts in STORED if before == 'full' else ():
                        e = e + ('n/%d' % k,) if k else e
                        hg.add(e, ts)
                        apply(m, ('add', e, ts))
        return models

    def verify(self, d, models, before, used, where):
        """What there is in each database, without creating the ones that should not be there."""
        for (backend, db), m in models.items():
            if backend == 'sqlite':
                exists = os.path.exists(db)
                params = {'backend': 'sqlite', 'db': db}
            else:
                exists = fakes.server.tables(db) != {}
                params = {'backend': 'mysql', 'db': db, 'host': 'localhost', 'user': 'gb', 'password': 'gb'}
            if exists != (before != 'none' or (backend, db) in used):
                raise Mismatch('%s: the database %s of %s should%s exist' % (where, db, backend, '' if not exists else ' not'))
            if exists:
                self.check(self.open(params), m, '%s: the database %s of %s' % (where, db, backend))
                edges = self.open(params).pattern2edges((N, N, N, N)) | self.open(params).pattern2edges((N, N, N))
                want = [e for n in (3, 4) for e in m.pattern((N,) * n)]
                if keys(edges) != keys(want):
                    raise Mismatch('%s: the database %s of %s has %s' % (where, db, backend, short(edges)))
        known = {db for b, db in models if b == 'sqlite'}
        extra = [f for f in files(d) if not any(f.startswith(k) for k in known)]
        if extra:
            raise Mismatch('%s: the files %s are created' % (where, extra))

    def case_cli(self, d, case, rec):
        _, command, options, before, order = case
        o = dict(options)
        models = self.world(before, o)
        log = len(fakes.server.log)
        args = []
        for k, v in (options if order == 'forward' else options[::-1]):
            if v is not None:
                args += ['--' + k, v] if order == 'forward' else ['--%s=%s' % (k, v)]
        res = self.command(args + [command])
        rec.count('transitions')
        where = ' '.join(args + [command])
        backend, db = o['backend'] or 'sqlite', o['db'] or 'gb.db'
        account = ('localhost', o['dbuser'] or 'gb', o['dbpass'] or 'gb')
        ok = backend in ('sqlite', 'null') or (backend == 'mysql' and account in fakes.server.accounts)
        if (res.exit_code == 0) != ok:
            raise Mismatch('%s: exit code %s, %r, %s' % (where, res.exit_code, res.exception, short(res.output)))
        used = set()
        if ok and backend != 'null':
            used.add((backend, db))
            if command == 'wordnet':
                self.read(models[(backend, db)])
        for x in fakes.server.log[log:]:
            if x != account + (db,):
                raise Mismatch('%s: connects with %r' % (where, x))
        if (len(fakes.server.log) > log) != (backend == 'mysql'):
            raise Mismatch('%s: it should%s use the server' % (where, '' if backend == 'mysql' else ' not'))
        self.verify(d, models, before, used, where)

    def case_commands(self, d, case, rec):
        _, backend, commands, before = case
        models = self.world(before)
        used = set()
        for i, c in enumerate(commands):
            # the second one through the default options
            args = ['--backend', backend] + (['--db', 'gb.db'] if i % 2 == 0 else [])
            res = self.command(args + [c])
            rec.count('transitions')
            where = '%s with %s' % (short(commands[:i + 1]), backend)
            if res.exit_code != 0:
                raise Mismatch('%s: exit code %s, %r' % (where, res.exit_code, res.exception))
            if backend != 'null':
                used.add((backend, 'gb.db'))
                if c == 'wordnet':
                    self.read(models[(backend, 'gb.db')])
            self.verify(d, models, before, used, where)
