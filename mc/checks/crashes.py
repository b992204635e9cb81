"""S10, S11: what is stored survives."""
import itertools
import os
import pickle
import signal
import struct
import subprocess
import sys

import mc.core as core
import mc.dbwrap as db
from mc.core import Check, Mismatch, short
import mc.scenarios as sc
from mc.graph import Graph
from mc.hgmodel import Model, apply, perform, key
from mc.histories import close
from mc.observe import observe, universe, snapshot, model_snapshot, differs, EVERYTHING

N = None
A, B, C, D = ('r', 'a', 'b'), ('r', 'b', 'a'), ('p', ('r', 'a', 'b')), ('q', 'a', 7, 'a')
F = ('is', 'sky', 'blue')


PARTS = 4         # in which the points of large operations are divided


# --- the files of a directory, as the file system would keep them

class Inode:
    def __init__(self):
        self.durable = b''
        self.pending = []       # (offset, data) or (length,)


def put(content, change):
    if len(change) == 1:
        n = change[0]
        return content[:n] if n <= len(content) else content + b'\0' * (n - len(content))
    off, data = change
    if off > len(content):
        content = content + b'\0' * (off - len(content))
    return content[:off] + data + content[off + len(data):]


class Disk:
    def __init__(self):
        self.names = {}         # as seen by the processes
        self.durable_names = {}
        self.dir_ops = []       # (name, inode or None), not yet durable

    def set_name(self, name, inode):
        if inode is None:
            self.names.pop(name, None)
        else:
            self.names[name] = inode
        self.dir_ops.append((name, inode))

    def apply(self, rec):
        typ, path, off, data = rec
        if typ == 'c':
            self.set_name(path, Inode())
        elif typ == 'w':
            self.names[path].pending.append((off, data))
        elif typ == 't':
            self.names[path].pending.append((off,))
        elif typ == 'u':
            self.set_name(path, None)
        elif typ == 'r':
            inode = self.names.get(path)
            if inode is not None:
                self.set_name(data.decode(), inode)
                self.set_name(path, None)
        elif typ == 's':
            if path in self.names:
                inode = self.names[path]
                for c in inode.pending:
                    inode.durable = put(inode.durable, c)
                inode.pending = []
            else:
                # the directory
                self.settle_names()

    def settle_names(self):
        self.durable_names = dict(self.names)
        self.dir_ops = []

    def settle(self):
        for inode in self.names.values():
            for c in inode.pending:
                inode.durable = put(inode.durable, c)
            inode.pending = []
        self.settle_names()

    def killed(self):
        """What other processes see now."""
        res = {}
        for name, inode in self.names.items():
            content = inode.durable
            for c in inode.pending:
                content = put(content, c)
            res[name] = content
        return res

    def powered_off(self, most):
        """Every state after a loss of power: (files, all directory operations done?)."""
        for k in range(len(self.dir_ops) + 1):
            names = dict(self.durable_names)
            for name, inode in self.dir_ops[:k]:
                if inode is None:
                    names.pop(name, None)
                else:
                    names[name] = inode
            items = sorted(names.items())
            for combo in itertools.product(*[list(contents(inode, most)) for _, inode in items]):
                yield {name: c for (name, _), c in zip(items, combo)}, k == len(self.dir_ops)


def contents(inode, most):
    """What a file can be, with its pending changes done in every combination, or cut short."""
    p = inode.pending
    n = len(p)
    if most == 0:
        # only some
        picks = [tuple(range(k)) for k in sorted({0, n // 2, n - 1, n}) if k >= 0] + [tuple(range(n // 2, n))]
    elif n <= most:
        picks = [tuple(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
    else:
        picks = [tuple(range(k)) for k in range(n + 1)] + [(i,) for i in range(n)]
        picks += [tuple(j for j in range(n) if j != i) for i in range(n)]
    seen = set()
    for pick in picks:
        content = inode.durable
        for i in pick:
            content = put(content, p[i])
        if content not in seen:
            seen.add(content)
            yield content
    if most == 0:
        return
    # a write cut at half, with everything before it done
    for i in range(n):
        if len(p[i]) == 2 and len(p[i][1]) > 1:
            content = inode.durable
            for c in p[:i]:
                content = put(content, c)
            off, data = p[i]
            content = put(content, (off, data[:len(data) // 2]))
            if content not in seen:
                seen.add(content)
                yield content


def read_log(path):
    with open(path, 'rb') as f:
        b = f.read()
    p = 0
    while p < len(b):
        typ = chr(b[p])
        n = struct.unpack_from('<H', b, p + 1)[0]
        name = b[p + 3:p + 3 + n].decode()
        p += 3 + n
        off, ln = struct.unpack_from('<QI', b, p)
        p += 12
        yield typ, name, off, b[p:p + ln]
        p += ln


class S11(Check):
    """Cases: (kind of crash, initial, ops, files, acknowledged, in progress, last can be missing): the files left by a
    crash are opened by the real code."""
    prop = 'S11'
    level = 'fault_enumeration'
    technique = 'crash enumeration: every prefix of the recorded file operations, with every loss of unsynchronised writes'
    rule = ('every operation from every initial state, and pairs of operations: the process killed after each change of a file; '
            'power lost at each such point, with unsynchronised writes lost in every combination (when few, otherwise prefixes, '
            'single ones and all but one) or cut at half, and directory changes lost from any of them on. '
            'Non-trivial: different files are left.')
    assumptions = ['writes of different calls are not merged', 'synchronised writes are durable', 'directory changes are ordered',
                   'the rollback journal of SQLite, or any other journal whose files are all written with write calls']
    timeout = 600

    def setup(self):
        src = os.path.join(core.VERIF, 'mc', 'shim.c')
        self.build = db.Scratch()
        self.shim = os.path.join(self.build.path, 'shim.so')
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', self.shim, src, '-ldl'])
        self.initial = [[], [('add', [A, B, C], 1), ('bel+', 'mary', F, 2)], [('add', [('r', 'x%d' % i, 'y') for i in range(40)], 3), ('add', C)],
                        [('add', [('hub', 'v/%d' % i) for i in range(1201)], 1), ('bel+', 'mary', F, 2)]]
        self.ops = [('add', A, 3), ('add', D), ('add', [B, C, A], 4), ('rem', A), ('rem', [A, C, B]), ('destroy',),
                    ('rbp', ('r', N, N)), ('bel+', 'mary', F, 5), ('bel+', 'john', [F, A]), ('bel-', 'mary', F),
                    ('batch', [('add', A), ('rem', B), ('add', [C, D], 2)]), ('flush', [('add', A, 1), ('add', [D, B], 2)]),
                    ('open',)]
        self.u = universe([A, B, C, D, F, ('src/1', F, 'mary'), ('src/1', F, 'john'), ('src/1', A, 'john'), ('r', 'x3', 'y')])

    def describe(self):
        return {'bounds': {'operations_per_history': 3 if self.thorough else 2, 'all_combinations_up_to': self.most()}}

    def most(self):
        return 8 if self.thorough else 5

    def histories(self):
        yield None, [('open',), ('add', A, 3)]
        for i in range(3):
            for op in self.ops:
                yield i, [op]
        pairs = [(a, b) for a in self.ops[:11:2] for b in self.ops[1:11:3]]
        for i in ((0, 1, 2) if self.thorough else (1,)):
            for a, b in (itertools.product(self.ops, repeat=2) if self.thorough else pairs):
                yield i, [a, b]
        if self.thorough:
            # big enough to be written before it ends
            yield 0, [('add', [('r', 'x%d' % i, 'y%d' % i, 'z', 'w') for i in range(400)], 3)]

    def large(self):
        n = 1201
        es = [('hub', 'v/%d' % i) for i in range(n)]
        yield 0, [('add', es, 3)]
        yield 3, [('rem', es)]
        yield 3, [('batch', [('rem', es[:n // 2]), ('add', [('hub', 'w/%d' % i) for i in range(n)], 2)])]
        yield 1, [('bel+', 'mary', es, 4)]
        if self.thorough:
            yield 3, [('rbp', ('hub', N))]
            yield 3, [('destroy',)]
            yield 1, [('batch', [('add', e, 3) for e in es])]
            yield 0, [('flush', [('add', e, 1) for e in es])]

    def blocks(self):
        hs = list(self.histories())
        n = 1 if self.thorough else 3
        return [(h + (part,),) for h in self.large() for part in range(PARTS)] + [tuple(hs[i:i + n]) for i in range(0, len(hs), n)]

    def block(self, block, rec):
        scratch = db.Scratch()
        try:
            todo = []
            for k, (i, ops) in enumerate(h[:2] for h in block):
                todo.append((os.path.join(scratch.path, 'w', 'h%d.db' % k), None if i is None else self.initial[i], ops))
            os.mkdir(os.path.join(scratch.path, 'w'))
            spec = os.path.join(scratch.path, 'spec')
            with open(spec, 'wb') as f:
                pickle.dump(todo, f)
            log = os.path.join(scratch.path, 'log')
            env = dict(os.environ, LD_PRELOAD=self.shim, MC_DIR=os.path.join(scratch.path, 'w'), MC_LOG=log, MC_REPO=core.REPO,
                       PYTHONPATH=core.VERIF)
            r = subprocess.run([sys.executable, '-m', 'mc.crash_child', spec], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=300)
            if r.returncode != 0:
                rec.fail(('run', block), 'the operations fail without any crash: %s' % r.stderr.decode()[-800:])
                return
            self.play(block, todo, list(read_log(log)), scratch, rec)
        finally:
            scratch.remove()

    def play(self, block, todo, log, scratch, rec):
        self.points = 0
        marks = os.path.join(scratch.path, 'w', 'marks')
        k = 0
        disk = Disk()
        begun = False
        acked = 0
        low = 0             # after the last acknowledged operation that changed any file is undone
        touched = False
        running = False
        seen = set()
        writes = 0
        for r in log:
            if r[1] == marks:
                if r[0] != 'w':
                    continue
                text = r[3].decode()
                if text == 'begin':
                    begun, acked, low, running = True, 0, 0, False
                    disk.settle()
                    seen = set()
                elif text == 'start':
                    running = True
                    touched = False
                elif text == 'ack':
                    running = False
                    if touched:
                        low = acked
                    acked += 1
                    if not self.crash_here(block[k], todo[k], disk, acked, low, False, seen, rec):
                        return
                elif text == 'end':
                    begun = False
                elif text == 'closed':
                    k += 1
                    disk = Disk()
                continue
            disk.apply(r)
            touched = True
            writes += r[0] == 'w'
            if begun and not self.crash_here(block[k], todo[k], disk, acked, low, running, seen, rec):
                return
        if k != len(block) or writes == 0:
            raise RuntimeError('the file operations were not recorded')
        rec.count('file_operations', len(log))

    def crash_here(self, history, spec, disk, acked, low, running, seen, rec):
        i, ops = history[:2]
        base = spec[0]
        if len(history) > 2:
            # only some of the points, and seldom losses of power
            self.points += 1
            if running and self.points % PARTS != history[2]:
                return True
            todo = [('killed', disk.killed(), False)]
            if self.thorough and self.points // PARTS % 20 == 0:
                todo += [('powered off', files, not whole) for files, whole in disk.powered_off(0)]
        else:
            todo = [('killed', disk.killed(), False)]
            todo += [('powered off', files, not whole) for files, whole in disk.powered_off(self.most())]
        for kind, files, missing in todo:
            files = {name[len(base):]: c for name, c in files.items() if name.startswith(base)}
            allowed = (low if missing else acked, acked + 1 if running else acked)
            rec.count('evaluations')
            sig = (tuple(sorted((n, hash(c)) for n, c in files.items())), allowed)
            if sig in seen:
                continue
            seen.add(sig)
            rec.seen((i, repr(ops), sig))
            if not self.attempt((kind, i, ops, files, allowed), rec):
                return False
        return True

    def run_case(self, case, rec):
        if case[0] == 'run':
            return self.again(case, rec)
        from gb.hypergraph.hypergraph import HyperGraph
        kind, i, ops, files, allowed = case
        scratch = db.Scratch()
        try:
            path = scratch.file()
            for name, content in files.items():
                if '-shm' in name:
                    continue
                with open(path + name, 'wb') as f:
                    f.write(content)
            hg = HyperGraph({'backend': 'sqlite', 'db': path})
            got = snapshot(hg, self.u)
            why = []
            for n in range(allowed[0], allowed[1] + 1):
                m = self.model(i, ops[:n])
                d = differs(got, model_snapshot(m, self.u))
                if d is None:
                    break
                why.append('not as after %d operations: %s' % (n, d))
            else:
                raise Mismatch('%s during %s, from %s, %d of its operations acknowledged: %s' % (
                    kind, short(ops), 'no file' if i is None else short(self.initial[i]), allowed[0], '; '.join(why)))
            if len(files) % 2 == 0:
                # and it can be used
                for op in (('add', A, 9), ('rem', C), ('add', D, 8)):
                    perform(hg, op)
                    apply(m, op)
                d = differs(snapshot(hg, self.u), model_snapshot(m, self.u))
                if d is not None:
                    raise Mismatch('%s during %s: after using it again, %s' % (kind, short(ops), d))
            close(hg)
            rec.sample((kind, i, ops, sorted((n, len(c)) for n, c in files.items()), allowed))
        finally:
            scratch.remove()

    def again(self, case, rec):
        r = core.Rec()
        self.block(case[1], r)
        if r.failures:
            raise Mismatch(r.failures[0][1])

    def model(self, i, ops):
        m = Model()
        for op in (self.initial[i] if i is not None else []) + list(ops):
            if op[0] == 'flush':
                for o in op[1]:
                    apply(m, o)
            elif op[0] != 'open':
                apply(m, op)
        return m

    def finish(self):
        self.build.remove()


class S10(Check):
    """Cases: ('two', ops, handles): sequences of operations through two handles of a file, with a third one opened at the end;
    ('kill', ops): made by a process that ends abruptly; ('tour', scenario, mode, part, parts): a walk that takes every transition
    from a part of all the reachable states, in turns through three handles or each time through a new one."""
    prop = 'S10'
    technique = 'explicit-state exploration of operation histories through several connections and abruptly ended processes'
    rule = ('every sequence of operations up to a depth, each through one of two handles on the same file, with everything asked '
            'through the other and a new one after each; every sequence made by a process killed without closing anything; every '
            'operation from every reachable state of some scenarios, through three handles in turns or a new one each time')
    assumptions = ['processes are killed, the machine is not (see S11)']
    timeout = 300

    def setup(self):
        self.ops = [('add', A, 3), ('add', [B, C, A], 4), ('rem', A), ('rem', [C, B]), ('destroy',), ('rbp', ('r', N, N)),
                    ('bel+', 'mary', F, 5), ('bel-', 'mary', F), ('batch', [('add', A), ('rem', B), ('add', D, 2)]),
                    ('flush', [('add', A, 1), ('add', [D, B], 2)])]
        self.u = universe([A, B, C, D, F, ('src/1', F, 'mary')], patterns=[('r', N, N), (N, 'a', N)])
        self.table = {x.name: x for x in sc.common() + [sc.extremes()]}
        self.graphs = {x: Graph(self.table[x].ops) for x in set(n for n, _ in self.tours())}
        self.extra = [('batch', [('batch', [('add', A, 1)])]), ('batch', []), ('touch', [A, 'a']), ('rem', D)]

    def tours(self):
        if self.thorough:
            return [(x, mode) for x in self.table for mode in ('three', 'new')]
        return [(x, 'three') for x in ('basic', 'numbers', 'by_pattern')] + [('basic', 'new'), ('nested', 'new'),
                                                                                       ('extremes', 'new')]

    def depth(self):
        return 4 if self.thorough else 3

    def describe(self):
        return {'bounds': {'depth': self.depth()},
                'reachable_states': {'%s, %s' % (x, mode): {'states': len(self.graphs[x].models), 'all': self.graphs[x].complete,
                                                            'transitions': self.graphs[x].transitions()} for x, mode in self.tours()}}

    def blocks(self):
        for x, mode in self.tours():
            k = max(1, len(self.graphs[x].models) // 100)
            for i in range(k):
                yield ('tour', x, mode, i, k)
        n = len(self.ops)
        for i in range(n):
            for j in range(n):
                yield ('two', (i, j))
        for i in range(n):
            yield ('kill', (i,))
        for i in range(len(self.extra)):
            yield ('extra', i)

    def cases(self, block):
        n = len(self.ops)
        if block[0] == 'two':
            for d in range(2, self.depth() + 1):
                for rest in itertools.product(range(n), repeat=d - 2):
                    for who in itertools.product((0, 1), repeat=d - 1):
                        yield ('two', block[1] + rest, (0,) + who)
        elif block[0] == 'tour':
            yield block
        elif block[0] == 'extra':
            for i in range(n):
                yield ('two', (i, -1 - block[1]), (0, 1))
                yield ('two', (i, -1 - block[1], i), (0, 0, 1))
        else:
            yield ('kill', block[1])
            for d in (2, 3) if self.thorough else (2,):
                for rest in itertools.product(range(n), repeat=d - 1):
                    yield ('kill', block[1] + rest)

    def op(self, i):
        return self.ops[i] if i >= 0 else self.extra[-1 - i]

    def perform(self, hg, op):
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        if op[0] == 'flush':
            bhg = BatchHyperGraph(hg, 1000)
            for o in op[1]:
                perform(bhg, o)
            bhg.flush()
        else:
            perform(hg, op)

    def apply(self, m, op):
        for o in (op[1] if op[0] == 'flush' else [op]):
            apply(m, o)

    def open(self, path):
        from gb.hypergraph.hypergraph import HyperGraph
        return HyperGraph({'backend': 'sqlite', 'db': path})

    def look(self, hg, m, text):
        try:
            observe(hg, m, self.u, EVERYTHING)
        except Mismatch as e:
            raise Mismatch('%s: %s' % (text, e))

    def run_case(self, case, rec):
        scratch = db.Scratch()
        try:
            getattr(self, 'case_' + case[0])(case, scratch, rec)
            rec.count('traces_validated_against_impl')
        finally:
            scratch.remove()

    def case_tour(self, case, scratch, rec):
        _, name, mode, part, parts = case
        s, g = self.table[name], self.graphs[name]
        path, hs, done, turn, taken = None, [], [], 0, set()
        mine = set(g.order[part * len(g.order) // parts:(part + 1) * len(g.order) // parts])
        for x, o in g.tour(part, parts):
            if x is None or path is None:
                for h in hs:
                    close(h)
                if path is not None:
                    scratch.drop(path)
                path, done = scratch.file(), []
                hs = [self.open(path) for _ in range(3 if mode == 'three' else 1)]
                if x is None:
                    continue
            if mode == 'new':
                hs.append(self.open(path))
                close(hs.pop(0))
            hg, other = hs[turn % len(hs)], hs[(turn + 1) % len(hs)]
            turn += 1
            done.append(s.ops[o])
            perform(hg, s.ops[o])
            rec.count('transitions')
            if x in mine and (x, o) not in taken:
                taken.add((x, o))
                m = g.models[g.next[x][o]]
                rec.state((name, g.next[x][o]))
                if mode == 'new':
                    other = self.open(path)
                    hs.append(other)
                    close(hs.pop(0))
                try:
                    observe(other, m, s.u, ('all', 'degree', 'timestamp', 'f_all'))
                except Mismatch as e:
                    raise Mismatch('after %d operations through %s, the last ones %s, with %s, seen by %s: %s' % (
                        len(done), 'three handles in turns' if mode == 'three' else 'a new handle each', short(done[-5:]),
                        short([y for y, _ in g.models[x].edges.values()]),
                        'the next handle' if mode == 'three' else 'another new one', e))
        for h in hs:
            close(h)
        rec.count('transitions_of_all_reachable_states', len(taken))

    def case_two(self, case, scratch, rec):
        path = scratch.file()
        hs = [self.open(path), self.open(path)]
        m = Model()
        for k, (i, who) in enumerate(zip(case[1], case[2])):
            op = self.op(i)
            self.perform(hs[who], op)
            self.apply(m, op)
            rec.count('transitions')
            rec.state(m.state())
            text = 'after %s through handles %s' % (short([self.op(x) for x in case[1][:k + 1]]), case[2][:k + 1])
            self.look(hs[1 - who], m, text + ', seen by the other handle')
            if k == len(case[1]) - 1:
                hg = self.open(path)
                self.look(hg, m, text + ', seen by a new handle')
                before = dump(path)
                hg2 = self.open(path)
                if dump(path) != before:
                    raise Mismatch('%s: opening it again changes the stored data' % text)
                close(hg2)
                self.look(hs[who], m, text + ', seen by the same handle after others opened it')
                close(hg)
        for h in hs:
            close(h)
        rec.sample([self.op(x) for x in case[1]])

    def case_kill(self, case, scratch, rec):
        path = scratch.file()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                hg = self.open(path)
                for i in case[1]:
                    self.perform(hg, self.op(i))
                    os.write(w, b'.')
                os.kill(os.getpid(), signal.SIGKILL)
            except BaseException:
                os.write(w, b'!')
            os._exit(1)
        os.close(w)
        acks = b''
        while True:
            b = os.read(r, 100)
            if not b:
                break
            acks += b
        os.close(r)
        os.waitpid(pid, 0)
        m = Model()
        ops = [self.op(i) for i in case[1]]
        if b'!' in acks:
            raise Mismatch('%s fails in a new process' % short(ops))
        for op in ops[:len(acks)]:
            self.apply(m, op)
            rec.count('transitions')
        rec.state(m.state())
        hg = self.open(path)
        self.look(hg, m, 'after a process did %s and was killed' % short(ops))
        close(hg)


def dump(path):
    c = db.plain(path)
    try:
        return list(c.iterdump())
    finally:
        c.close()
