#!/usr/bin/env python3
"""Tries small changes at every place of the code, to find what no check notices.

mutate.py FILE... [--out LOG] [--jobs N] [--every K]
Each change is made in a scratch copy; if the tests still pass, the checks of the file run until one of them sees it."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

STRIDE = os.environ.get('MC_STRIDE', '1')
CHECKS = {
    'gb/hypergraph/edge.py': 'E01 E03 S08',
    'gb/hypergraph/symbol.py': 'Y01 Y02 Y03 E03 E01',
    'gb/hypergraph/sql.py': 'E02 S05 S04 S06 S07 S03 S14 S09 S02 S01 S10 S12 S13 S11 M01 S15 S16',
    'gb/hypergraph/sqlite.py': 'S15 S10 C01 S12 S13 S11 S06',
    'gb/hypergraph/mysql.py': 'M01 C01',
    'gb/hypergraph/null.py': 'N01 C01',
    'gb/hypergraph/hypergraph.py': 'N01 C01 Q01 B01 S14 S09 S06 S01 S13 S12 S11 B02 S16',
    'gb/hypergraph/batch_hypergraph.py': 'B02 S16',
    'gb/hypergraph/queries.py': 'Q02',
    'gb/hypergraph/backend.py': 'N01',
    'gb/gbrain.py': 'C01',
    'gb/readers/wordnet.py': 'R01 C01',
    'gb/nlp/parser.py': 'L01',
    'gb/nlp/nlp_token.py': 'L02 L01',
    'gb/nlp/sentence.py': 'L02 L03 L01 K06',
    'gb/knowledge/extractor.py': 'K06 K01',
    'gb/knowledge/semantic_tree.py': 'K07 K01 K03 K05',
    'gb/knowledge/stages/alpha.py': 'K01 K06',
    'gb/knowledge/stages/beta.py': 'K02 K06',
    'gb/knowledge/stages/gamma.py': 'K03 K06',
    'gb/knowledge/stages/delta.py': 'K04 K06',
    'gb/knowledge/stages/epsilon.py': 'K05 K06',
    'python/filter_wikidump.py': 'W01',
}

SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}
MORE = {ast.Lt: '>=', ast.Gt: '<=', ast.LtE: '>', ast.GtE: '<'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}


def mutants(src):
    """(line, what, changed text)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    def put(n, new, what):
        a, b = span(n)
        res = (data[:a] + new.encode() + data[b:]).decode()
        return (n.lineno, '%s -> %s' % (what or text(n), new), res)

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    main = set()
    for n in tree.body:
        if isinstance(n, ast.If) and '__main__' in text(n.test):
            main.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in docs or n in main:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for table in (SWAP, MORE):
                if type(n.ops[0]) in table:
                    yield put(n, '(%s %s %s)' % (text(n.left), table[type(n.ops[0])], text(n.comparators[0])), text(n))
        elif isinstance(n, ast.BoolOp):
            new = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield put(n, '(%s)' % new.join('(%s)' % text(v) for v in n.values), text(n))
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                old = ' and ' if isinstance(n.op, ast.And) else ' or '
                yield put(n, '(%s)' % old.join('(%s)' % text(v) for v in rest), text(n))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield put(n, '(%s)' % text(n.operand), text(n))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield put(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), text(n))
        elif isinstance(n, ast.Constant) and not isinstance(getattr(n, 'parent', None), ast.JoinedStr):
            if isinstance(n.value, bool):
                yield put(n, repr(not n.value), None)
            elif isinstance(n.value, (int, float)):
                yield put(n, repr(n.value + 1), None)
                yield put(n, repr(n.value - 1), None)
            elif isinstance(n.value, str):
                yield put(n, repr(n.value + 'X'), None)
                if n.value:
                    yield put(n, repr(n.value[:-1]), None)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield put(n.test, 'True', 'if ' + text(n.test))
            yield put(n.test, 'False', 'if ' + text(n.test))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            yield put(n, 'pass', None)
        elif isinstance(n, ast.Return) and n.value is not None:
            yield put(n, 'return None', None)
        elif isinstance(n, ast.Break):
            yield put(n, 'continue', None)
            yield put(n, 'pass', None)
        elif isinstance(n, ast.Continue):
            yield put(n, 'break', None)
            yield put(n, 'pass', None)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a, b = n.args[0], n.args[1]
                yield put(n, '%s(%s)' % (text(n.func), ', '.join([text(b), text(a)] + [text(x) for x in n.args[2:]] + [
                    text(k) for k in n.keywords])), text(n))
            if n.args:
                yield put(n, '%s(%s)' % (text(n.func), ', '.join([text(x) for x in n.args[:-1]] + [text(k) for k in n.keywords])),
                          text(n))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('clone', 'lower', 'strip', 'copy'):
                yield put(n, text(n.func.value), text(n))
            if isinstance(n.func, ast.Name) and n.func.id in ('set', 'list', 'tuple', 'sorted', 'reversed') and len(n.args) == 1:
                yield put(n, text(n.args[0]), text(n))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield put(n, text(n.value), text(n))
        elif isinstance(n, ast.For):
            yield put(n.iter, 'list(%s)[1:]' % text(n.iter), 'for ' + text(n.iter))
            yield put(n.iter, 'list(%s)[::-1]' % text(n.iter), 'for ' + text(n.iter))


def one(job):
    f, i, line, what, text, pool = job
    d, w = pool.get()
    try:
        path = os.path.join(w, f)
        old = open(path).read()
        try:
            compile(text, f, 'exec')
        except SyntaxError:
            return None
        open(path, 'w').write(text)
        try:
            if not f.startswith('python/') and plant.tests(w):
                return (f, i, line, what, 'tests', '')
            for c in CHECKS[f].split():
                code, out = plant.sh(['./check', c], plant.VERIF, {
                    'MC_REPO': w, 'MC_EVIDENCE': os.path.join(d, 'evidence'), 'MC_NPROC': '1', 'MC_STRIDE': STRIDE, 'MC_BUDGET': '1500'}, 1700)
                if code == 1:
                    whats = [x for x in out.splitlines() if x.startswith('what:')] or ['']
                    return (f, i, line, what, c, whats[0][:200])
                if code != 0:
                    return (f, i, line, what, 'ERROR in %s' % c, out[-300:])
            return (f, i, line, what, 'SURVIVES', '')
        finally:
            open(path, 'w').write(old)
    finally:
        pool.put((d, w))


def main(argv):
    jobs, log, every = 8, '/tmp/x/mutate.log', 1
    files = []
    while argv:
        a = argv.pop(0)
        if a == '--jobs':
            jobs = int(argv.pop(0))
        elif a == '--out':
            log = argv.pop(0)
        elif a == '--every':
            every = int(argv.pop(0))
        else:
            files.append(a)
    pool = queue.Queue()
    made = []
    for _ in range(jobs):
        d, w = plant.copy()
        made.append(d)
        pool.put((d, w))
    try:
        todo = []
        for f in files or CHECKS:
            src = open(os.path.join('/repo', f)).read()
            seen = set()
            for i, (line, what, text) in enumerate(mutants(src)):
                if text not in seen and text != src and i % every == 0:
                    seen.add(text)
                    todo.append((f, i, line, what, text, pool))
        print('%d changes' % len(todo), flush=True)
        tally = {}
        with ThreadPoolExecutor(jobs) as ex, open(log, 'a') as out:
            for r in ex.map(one, todo):
                if r is None:
                    continue
                kind = r[4] if r[4] in ('tests', 'SURVIVES') or r[4].startswith('ERROR') else 'caught'
                tally[kind] = tally.get(kind, 0) + 1
                out.write(json.dumps(r) + '\n')
                out.flush()
                if kind not in ('tests', 'caught'):
                    print('%s:%s %s %s %s' % (r[0], r[2], r[4], r[3], r[5]), flush=True)
        print(tally, flush=True)
    finally:
        for d in made:
            shutil.rmtree(d)


if __name__ == '__main__':
    main(sys.argv[1:])
