"""Control of the calls that the code under test makes to SQLite. Must be installed before importing it."""
import os
import re
import shutil
import sqlite3
import tempfile

_connect = sqlite3.connect
hook = None          # hook(kind, connection, text), called before each call to the database
around = None        # around(kind, connection, function), calls the function
timeout = None       # of the connections, instead of what they ask for
PRAGMA = re.compile(r'\s*PRAGMA\s+busy_timeout\s*[=(]\s*(\d+)', re.I)


def call(kind, conn, text, f):
    if kind == 'execute' and text.lstrip()[:8].upper() == 'ROLLBACK':
        kind = 'rollback'
    if hook is not None:
        hook(kind, conn, text)
    if around is not None:
        return around(kind, conn, f)
    return f()


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        m = PRAGMA.match(sql) if timeout is not None else None
        if m:
            self.connection.asked = int(m.group(1)) / 1000
            return self
        call('execute', self.connection, sql, lambda: sqlite3.Cursor.execute(self, sql, *args))
        return self

    def executemany(self, sql, *args):
        call('execute', self.connection, sql, lambda: sqlite3.Cursor.executemany(self, sql, *args))
        return self

    def executescript(self, sql):
        call('execute', self.connection, sql, lambda: sqlite3.Cursor.executescript(self, sql))
        return self

    def __next__(self):
        return call('fetch', self.connection, '', lambda: sqlite3.Cursor.__next__(self))

    def fetchone(self):
        return call('fetch', self.connection, '', lambda: sqlite3.Cursor.fetchone(self))

    def fetchall(self):
        return call('fetch', self.connection, '', lambda: sqlite3.Cursor.fetchall(self))

    def fetchmany(self, *a, **k):
        return call('fetch', self.connection, '', lambda: sqlite3.Cursor.fetchmany(self, *a, **k))


class Connection(sqlite3.Connection):
    asked = 5.0          # how long it would wait for a lock, in seconds

    def cursor(self, factory=Cursor):
        return sqlite3.Connection.cursor(self, factory)

    # the ones of the class do not go through cursor()
    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)

    def executemany(self, sql, *args):
        return self.cursor().executemany(sql, *args)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def commit(self):
        call('commit', self, '', lambda: sqlite3.Connection.commit(self))

    def rollback(self):
        call('rollback', self, '', lambda: sqlite3.Connection.rollback(self))

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()
                raise
        else:
            self.rollback()
        return False


def connect(database, *args, **kwargs):
    asked = args[0] if args else kwargs.get('timeout', 5.0)
    if timeout is not None:
        if args:
            args = (timeout,) + args[1:]
        else:
            kwargs['timeout'] = timeout
    if len(args) < 5:
        kwargs.setdefault('factory', Connection)
    conn = _connect(database, *args, **kwargs)
    if isinstance(conn, Connection):
        conn.asked = asked
    return conn


def install():
    sqlite3.connect = connect
    sqlite3.dbapi2.connect = connect


def plain(path):
    """A connection that is not controlled."""
    return _connect(path)


class Scratch:
    """A directory of its own, in memory if possible, removed at the end."""

    def __init__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix='mc-', dir=base)
        self.n = 0
        self.pid = os.getpid()

    def file(self):
        self.n += 1
        return os.path.join(self.path, '%s-%d.db' % (os.getpid(), self.n))

    def drop(self, path):
        for suffix in ('', '-journal', '-wal', '-shm'):
            try:
                os.unlink(path + suffix)
            except FileNotFoundError:
                pass

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)
