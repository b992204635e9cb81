"""Stand-ins of libraries: a driver of MySQL, the corpus of WordNet, the loader of models of spaCy."""
import os
import re
import sqlite3
import sys
import types


class Server:
    """A MySQL server, which keeps its databases in memory, or in the files of a directory. With files, each connection
    to a database has its own transactions, which read what there was when they began."""

    def __init__(self, directory=None):
        self.accounts = {}      # (host, user, password) -> names of databases
        self.dbs = {}
        self.log = []
        self.directory = directory
        self.conns = []

    def grant(self, host, user, password, db):
        self.accounts.setdefault((host, user, password), set()).add(db)
        if db not in self.dbs:
            self.dbs[db] = self.open(db)

    def open(self, db):
        if self.directory is None:
            return sqlite3.connect(':memory:', isolation_level=None)
        c = sqlite3.connect(os.path.join(self.directory, db), isolation_level=None, timeout=0)
        c.execute('PRAGMA journal_mode=WAL')
        c.execute('PRAGMA synchronous=OFF')
        self.conns.append(c)
        return c

    def handle(self, db):
        return self.dbs[db] if self.directory is None else self.open(db)

    def tables(self, db):
        """Everything stored in a database."""
        c = self.dbs[db]
        names = [r[0] for r in c.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        return {n: sorted(c.execute('SELECT * FROM %s' % n).fetchall(), key=repr) for n in names}

    def close(self):
        for c in list(self.dbs.values()) + self.conns:
            c.close()


server = None


def exceptions():
    import _mysql_exceptions
    return _mysql_exceptions


NAMES = ('host', 'user', 'passwd', 'db', 'port')


def connect(*args, **kw):
    ex = exceptions()
    params = dict(zip(NAMES, args))
    for k, v in kw.items():
        params[{'password': 'passwd', 'database': 'db'}.get(k, k)] = v
    host, user, passwd, db = [params.get(k) for k in NAMES[:4]]
    server.log.append((host, user, passwd, db))
    if (host, user, passwd) not in server.accounts:
        raise ex.OperationalError(1045, "Access denied for user '%s'@'%s'" % (user, host))
    if db is not None and db not in server.accounts[(host, user, passwd)]:
        raise ex.OperationalError(1049, "Unknown database '%s'" % db)
    return Connection(server.handle(db), bool(params.get('autocommit', False)))


class Connection:
    def __init__(self, db, auto):
        self.db = db
        self.auto = auto
        self.closed = False

    def autocommit(self, on):
        if on and self.pending():
            self.db.execute('COMMIT')
        self.auto = bool(on)

    def get_autocommit(self):
        return self.auto

    def pending(self):
        return self.db.in_transaction

    def begin(self):
        if self.pending():
            self.db.execute('COMMIT')
        self.db.execute('BEGIN')

    def commit(self):
        self.alive()
        if self.pending():
            self.db.execute('COMMIT')

    def rollback(self):
        self.alive()
        if self.pending():
            self.db.execute('ROLLBACK')

    def alive(self):
        if self.closed:
            raise exceptions().InterfaceError(0, '')

    def cursor(self, *_args):
        self.alive()
        return Cursor(self)

    def ping(self, *_args):
        self.alive()

    def query(self, q):
        self.cursor().execute(q)

    def __enter__(self):
        if self.auto:
            self.begin()
        return self.cursor()

    def __exit__(self, exc, *_):
        if exc:
            self.rollback()
        else:
            self.commit()

    def close(self):
        self.alive()
        if self.pending():
            self.db.execute('ROLLBACK')
        self.closed = True


BITS = {'TINYINT': 8, 'SMALLINT': 16, 'MEDIUMINT': 24, 'INT': 32, 'INTEGER': 32, 'BIGINT': 64}


def limits(m):
    """Declaration of a column with the limits of its type."""
    name, typ, unsigned = m.groups()
    n = BITS[typ.upper()]
    low, high = (0, min(2 ** n, 2 ** 63) - 1) if unsigned else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    if low == -2 ** 63:
        return '%s INTEGER' % name
    return '%s INTEGER CHECK (%s BETWEEN %d AND %d)' % (name, name, low, high)


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.open = True

    def execute(self, query, args=None):
        ex = exceptions()
        if not self.open:
            raise ex.ProgrammingError('cursor closed')
        self.conn.alive()
        if args is not None:
            if isinstance(args, str):
                raise ex.ProgrammingError('arguments of a query have to be in a sequence')
            args = tuple(args)
            # as the % operator of python
            holes = re.findall(r'%(.)', query)
            if any(h not in 's%' for h in holes) or holes.count('s') != len(args):
                raise ex.ProgrammingError('not all arguments converted during string formatting')
            query = query.replace('%%', '\0').replace('%s', '?').replace('\0', '%')
        else:
            args = ()
            if '?' in query or '%s' in query:
                raise ex.ProgrammingError(1064, 'You have an error in your SQL syntax')
        q = query.strip().rstrip(';').strip()
        word = q.split()[0].upper()
        db = self.conn.db
        try:
            if word in ('CREATE', 'ALTER', 'DROP', 'TRUNCATE'):
                # implicit commit
                self.conn.commit()
                q = re.sub(r'\)\s*ENGINE\s*=.*$', ')', q, flags=re.S | re.I)
                q = re.sub(r'\((\w+)\(\d+\)\)', r'(\1)', q)
                q = re.sub(r'^TRUNCATE(\s+TABLE)?', 'DELETE FROM', q, flags=re.I)
                # text, as what is compared in MySQL has the type of the column
                q = re.sub(r'(\w+)\s+VARCHAR\((\d+)\)', r'\1 TEXT CHECK (length(\1) <= \2)', q, flags=re.I)
                q = re.sub(r'(\w+)\s+(TINYINT|SMALLINT|MEDIUMINT|INTEGER|INT|BIGINT)\b(?:\s*\(\d+\))?(\s+UNSIGNED)?', limits, q,
                           flags=re.I)
                db.execute(q)
                self.rows, self.rowcount = [], 0
            elif word in ('START', 'BEGIN'):
                self.conn.begin()
            elif word in ('COMMIT', 'ROLLBACK'):
                getattr(self.conn, word.lower())()
            else:
                if not self.conn.auto and not self.conn.pending():
                    db.execute('BEGIN')
                q = re.sub(r'^INSERT\s+IGNORE', 'INSERT OR IGNORE', q, flags=re.I)
                if word == 'UPDATE':
                    self.rowcount = self.update(q, args)
                    self.rows = []
                else:
                    cur = db.execute(q, args)
                    self.rows = cur.fetchall()
                    self.rowcount = len(self.rows) if word == 'SELECT' else cur.rowcount
        except sqlite3.IntegrityError as e:
            if 'CHECK' in str(e):
                raise ex.DataError(1264, 'Out of range value: %s' % e)
            raise ex.IntegrityError(1062, 'Duplicate entry: %s' % e)
        except sqlite3.OperationalError as e:
            if 'no such table' in str(e):
                raise ex.ProgrammingError(1146, str(e))
            if 'already exists' in str(e):
                raise ex.OperationalError(1050, str(e))
            if 'duplicate column' in str(e):
                raise ex.OperationalError(1060, str(e))
            raise ex.ProgrammingError(1064, str(e))
        self.pos = 0
        return self.rowcount

    def update(self, q, args):
        """MySQL counts only the rows that do change."""
        m = re.match(r'UPDATE\s+(\w+)\s+SET\s+(.*?)(?:\s+WHERE\s+(.*))?$', q, flags=re.I | re.S)
        table, sets, cond = m.groups()
        n = sets.count('?')
        where = ' WHERE %s' % cond if cond else ''
        before = dict((r[0], r) for r in self.conn.db.execute('SELECT rowid, * FROM %s%s' % (table, where), args[n:]))
        self.conn.db.execute(q, args)
        changed = 0
        for rid, r in before.items():
            changed += self.conn.db.execute('SELECT rowid, * FROM %s WHERE rowid=?' % table, (rid,)).fetchone() != r
        return changed

    def executemany(self, query, many):
        n = 0
        for args in many:
            n += self.execute(query, args)
        self.rowcount = n
        return n

    def fetchone(self):
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchall(self):
        res = tuple(self.rows[self.pos:])
        self.pos = len(self.rows)
        return res

    def fetchmany(self, size=1):
        res = tuple(self.rows[self.pos:self.pos + size])
        self.pos += len(res)
        return res

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


# --- WordNet

class Corpus:
    """Stands for nltk.corpus.wordnet, gives the lexicon that is being checked."""
    synsets_list = []

    def all_synsets(self, pos=None):
        return iter([s for s in self.synsets_list if pos is None or s.pos() == pos])

    def ensure_loaded(self):
        pass


corpus = Corpus()

SYNSET_RELATIONS = ('hypernyms', 'instance_hypernyms', 'member_meronyms', 'attributes', 'entailments', 'causes', 'also_sees',
                    'verb_groups', 'similar_tos')
OTHER_RELATIONS = ('hyponyms', 'instance_hyponyms', 'member_holonyms', 'part_meronyms', 'part_holonyms', 'substance_meronyms',
                   'substance_holonyms', 'topic_domains', 'region_domains', 'usage_domains', 'in_topic_domains', 'in_region_domains',
                   'in_usage_domains')
LEMMA_RELATIONS = ('antonyms', 'pertainyms', 'derivationally_related_forms')


class Synset:
    def __init__(self, name, pos, words):
        self._name, self._pos = name, pos
        self._lemmas = [Lemma(self, w) for w in words]
        self.related = {}

    def name(self):
        return self._name

    def pos(self):
        return self._pos

    def lemmas(self, lang='eng'):
        return list(self._lemmas)

    def lemma_names(self, lang='eng'):
        return [x.name() for x in self._lemmas]


class Lemma:
    def __init__(self, synset, name):
        self._synset, self._name = synset, name
        self.related = {}

    def name(self):
        return self._name

    def synset(self):
        return self._synset


def _relation(name):
    def f(self):
        return list(self.related.get(name, ()))
    return f


for _n in SYNSET_RELATIONS + OTHER_RELATIONS:
    setattr(Synset, _n, _relation(_n))
for _n in LEMMA_RELATIONS + SYNSET_RELATIONS + OTHER_RELATIONS:
    setattr(Lemma, _n, _relation(_n))


# --- spaCy

class Loader:
    """What spacy.load gives."""
    make = None
    loaded = []

    def __init__(self, name):
        Loader.loaded.append(name)

    def __call__(self, text, **_kw):
        return Loader.make(text)


def install(mysql=False, wordnet=False, spacy=False):
    """Before anything of the repository is imported."""
    if mysql:
        import MySQLdb
        for n in ('connect', 'Connect', 'Connection'):
            setattr(MySQLdb, n, connect)
        g = sys.modules.get('gb.hypergraph.mysql')
        assert g is None or g.MySQLdb is MySQLdb
    if wordnet:
        assert 'gb.readers.wordnet' not in sys.modules
        import nltk.corpus
        nltk.corpus.wordnet = corpus
    if spacy:
        assert 'gb.nlp.parser' not in sys.modules
        import spacy as sp
        sp.load = lambda name='en', **_kw: Loader(name)
