"""Controlled execution of several threads: one runs at a time, and each call to the database is a point where another
can take over. A schedule is the list of choices made where more than one could go on."""
import sqlite3
import threading

import mc.dbwrap as db


ENOUGH = 0.5     # a connection that waits less than this, in seconds, can find the lock still taken


class Stop(BaseException):
    pass


class Worker:
    def __init__(self, sched, tid, body):
        self.sched = sched
        self.tid = tid
        self.body = body
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.give_up = False
        self.error = None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        try:
            self.body(self)
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        finally:
            self.done = True
            self.sched.ctl.release()

    def pause(self):
        """Gives control back, until chosen again."""
        self.sched.ctl.release()
        self.go.acquire()
        if self.sched.stop:
            raise Stop()


class Schedule:
    """One execution. choices: what to choose at each decision; after them, no preemptions.
    Each body must pause once when it is ready to start."""

    def __init__(self, bodies, choices, points=('execute', 'commit', 'rollback', 'fetch')):
        self.ctl = threading.Semaphore(0)
        self.workers = [Worker(self, i, b) for i, b in enumerate(bodies)]
        self.by_thread = {}
        self.choices = choices
        self.trace = []        # (enabled, chosen, preempting)
        self.steps = 0
        self.deadlocks = 0
        self.stop = False
        self.points = points
        self.clock = 0

    def tick(self):
        self.clock += 1
        return self.clock

    def call(self, kind, conn, f):
        """A call of the code under test to the database."""
        w = self.by_thread.get(threading.get_ident())
        if w is None:
            return f()
        if kind in self.points:
            w.pause()
        while True:
            try:
                res = f()
            except sqlite3.OperationalError as e:
                if getattr(e, 'sqlite_errorcode', None) not in (sqlite3.SQLITE_BUSY, sqlite3.SQLITE_LOCKED):
                    self.wake(w, conn)
                    raise
                # wait for the lock, as SQLite does, if it was asked to
                if w.give_up or getattr(conn, 'asked', 5.0) < ENOUGH:
                    w.give_up = False
                    raise
                w.blocked = True
                w.pause()
                continue
            except BaseException:
                self.wake(w, conn)
                raise
            self.wake(w, conn)
            return res

    def wake(self, w, conn):
        if not conn.in_transaction:
            for o in self.workers:
                if o is not w:
                    o.blocked = False

    def run(self):
        db.around = self.call
        cur = None
        try:
            for w in self.workers:
                w.thread.start()
                self.by_thread[w.thread.ident] = w
            db.around = None
            for w in self.workers:
                w.go.release()
                self.ctl.acquire()
            db.around = self.call
            while True:
                enabled = [w.tid for w in self.workers if not w.done and not w.blocked]
                if not enabled:
                    waiting = [w for w in self.workers if not w.done]
                    if not waiting:
                        break
                    # nobody can go on: the one that waited longest gets the error of the timeout
                    self.deadlocks += 1
                    waiting[0].give_up = True
                    waiting[0].blocked = False
                    continue
                if len(enabled) == 1:
                    tid = enabled[0]
                else:
                    default = cur if cur in enabled else enabled[0]
                    k = len(self.trace)
                    tid = self.choices[k] if k < len(self.choices) else default
                    if tid not in enabled:
                        tid = default
                    self.trace.append((tuple(enabled), tid, cur in enabled and tid != cur, cur))
                cur = tid
                self.steps += 1
                self.workers[tid].go.release()
                self.ctl.acquire()
        finally:
            db.around = None
            self.stop = True
            for w in self.workers:
                if not w.done:
                    w.go.release()
            for w in self.workers:
                w.thread.join(timeout=5)


def explore(make, bound, visit, limit=None):
    """Executes every schedule with at most `bound` preemptions. make(choices) returns an executed Schedule.
    visit(schedule) is called for each. Returns how many, and whether all were explored."""
    stack = [((), 0)]
    n = 0
    while stack:
        choices, fixed = stack.pop()
        s = make(list(choices))
        n += 1
        visit(s)
        if limit is not None and n >= limit:
            return n, not stack
        made = [t[1] for t in s.trace]
        used = 0
        new = []
        for i, (enabled, chosen, preempting, cur) in enumerate(s.trace):
            if i >= fixed:
                for alt in enabled:
                    if alt != chosen:
                        cost = used + (1 if cur in enabled and alt != cur else 0)
                        if cost <= bound:
                            new.append((tuple(made[:i]) + (alt,), i + 1))
            used += 1 if preempting else 0
        stack += reversed(new)
    return n, True
