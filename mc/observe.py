"""Comparison of what a hypergraph shows with what the model says."""
from mc.core import Mismatch, short
from mc.hgmodel import key, keys, is_edge


def show(ks):
    return '{%s}' % ', '.join(sorted(short(unkey(k), 120) for k in ks))


def unkey(k):
    if k[0] == 'e':
        return '(%s)' % ' '.join(unkey(x) for x in k[1:])
    return repr(k[1]) if k[0] == 's' else str(k[1])


def same(what, got, want):
    """Compares collections of edges."""
    got = list(got)
    g = [key(x) for x in got]
    w = keys(want)
    if len(set(g)) != len(g):
        raise Mismatch('%s has repeated results: %s' % (what, short(got)))
    if set(g) != w:
        raise Mismatch('%s: missing %s, wrong %s' % (what, show(w - set(g)), show(set(g) - w)))


def equal(what, got, want):
    if key(got) != key(want):
        raise Mismatch('%s is %s, should be %s' % (what, short(got), short(want)))


def truth(what, got, want):
    if bool(got) != want:
        raise Mismatch('%s is %s, should be %s' % (what, short(got), want))


def lengths(universe):
    return sorted(set([2, 3, 4] + [len(e) for e in universe['edges']]))


def o_exists(hg, m, u):
    for e in u['edges']:
        truth('exists(%s)' % short(e, 100), hg.exists(e), m.exists(e))


def o_all(hg, m, u):
    """Everything stored, by patterns of wildcards of each length."""
    for n in u.get('lengths') or lengths(u):
        same('pattern2edges(%s wildcards)' % n, hg.pattern2edges((None,) * n), m.pattern((None,) * n))


def o_patterns(hg, m, u):
    for p in u['patterns']:
        same('pattern2edges(%s)' % short(p, 100), hg.pattern2edges(p), m.pattern(p))


def o_star(hg, m, u):
    for v in u['vertices']:
        same('star(%s)' % short(v, 100), hg.star(v), m.star(v))


def o_roots(hg, m, u):
    for r in u['roots']:
        same('symbols_with_root(%s)' % r, hg.symbols_with_root(r), m.symbols_with_root(r))


def o_degree(hg, m, u):
    for v in u['vertices']:
        equal('degree(%s)' % short(v, 100), hg.degree(v), m.degree(v))


def o_timestamp(hg, m, u):
    for v in u['vertices']:
        ts = m.timestamp(v)
        if ts is not None:
            equal('timestamp(%s)' % short(v, 100), hg.timestamp(v), ts)


RESULTS = [None, 0, '', (), [], {}, False, ('result', 1), StopIteration]


def o_f_all(hg, m, u):
    calls = []
    kept = []
    results = []

    def f(vmap):
        calls.append((vmap['vertex'], vmap['degree']))
        kept.append(vmap)
        # any result
        results.append(vmap if len(calls) % 2 else RESULTS[len(calls) // 2 % len(RESULTS)])
        return results[-1]

    res = list(hg.f_all(f))
    if len(res) != len(results) or any(x is not y for x, y in zip(res, results)):
        raise Mismatch('f_all does not return the results of the function: %s instead of %s' % (short(res), short(results)))
    for (v, d), vmap in zip(calls, kept):
        if vmap['vertex'] is not v or vmap['degree'] is not d:
            raise Mismatch('f_all changes what it gave to the function')
    seen = {}
    for v, d in calls:
        k = key(v)
        if k in seen:
            raise Mismatch('f_all visits %s more than once' % short(v, 100))
        seen[k] = d
    want = m.vertices()
    for k, d in want.items():
        if k not in seen:
            raise Mismatch('f_all does not visit %s' % unkey(k))
        if key(seen[k]) != key(d):
            raise Mismatch('f_all visits %s with degree %s, should be %s' % (unkey(k), seen[k], d))
    for k, d in seen.items():
        if k not in want:
            if k not in m.first:
                raise Mismatch('f_all visits %s, which was never mentioned' % unkey(k))
            if d != 0:
                raise Mismatch('f_all visits %s with degree %s, should be 0' % (unkey(k), d))


class Stopped(Exception):
    pass


def o_f_all_stopped(hg, m, u):
    """Enumerations that end before their time."""
    n = len(m.vertices())
    for k in (0, 1, n - 1):
        it = iter(hg.f_all(lambda x: x['degree']))
        for _ in range(k):
            next(it, None)
        del it

        calls = []

        def f(x):
            if len(calls) == k:
                raise Stopped()
            calls.append(x)
            return x

        try:
            list(hg.f_all(f))
        except Stopped:
            if len(calls) != k:
                raise Mismatch('f_all calls the function %d times, it failed the first one' % len(calls))
        else:
            if n > k >= 0:
                raise Mismatch('f_all hides the error of the function')


def visit_changing(hg, change, at, inside, m, m2):
    """An enumeration, and a change from m to m2 after some visits, made by the function or between two of them."""
    calls = []

    def f(x):
        calls.append((x['vertex'], x['degree']))
        if len(calls) > 2 * len(m.first) + 2 * len(m2.first) + 50:
            raise Mismatch('f_all visits %s and so on, it does not end' % short(calls, 200))
        if inside and len(calls) == at + 1:
            change()
        return 5
    it = iter(hg.f_all(f))
    if not inside:
        for _ in range(at):
            next(it, None)
        change()
    for x in it:
        if x != 5:
            raise Mismatch('f_all does not return the results of the function')
    if inside and len(calls) <= at:
        change()
    seen = {}
    for v, d in calls:
        if key(v) in seen:
            raise Mismatch('f_all visits %s more than once' % short(v, 100))
        seen[key(v)] = d
    a, b = m.vertices(), m2.vertices()
    for k in set(a) | set(b) | set(seen):
        if k in seen:
            if seen[k] not in (a.get(k, 0), b.get(k, 0)):
                raise Mismatch('f_all visits %s with degree %s' % (unkey(k), seen[k]))
            if k not in a and k not in b and k not in m.first and k not in m2.first:
                raise Mismatch('f_all visits %s, which was never mentioned' % (unkey(k),))
        elif k in a and k in b:
            raise Mismatch('f_all does not visit %s, which is there all the time' % (unkey(k),))


def o_sources(hg, m, u):
    for e in u['edges']:
        same('sources(%s)' % short(e, 100), hg.sources(e), m.sources(e))


KINDS = {'exists': o_exists, 'all': o_all, 'patterns': o_patterns, 'star': o_star, 'roots': o_roots,
         'degree': o_degree, 'timestamp': o_timestamp, 'f_all': o_f_all, 'f_all_stopped': o_f_all_stopped, 'sources': o_sources}
EVERYTHING = ('exists', 'all', 'patterns', 'star', 'roots', 'degree', 'timestamp', 'f_all')


def observe(hg, m, u, kinds):
    for k in kinds:
        KINDS[k](hg, m, u)


def snapshot(hg, u):
    """Everything that can be observed, to compare two moments or two hypergraphs."""
    return {
        'exists': {key(e): bool(hg.exists(e)) for e in u['edges']},
        'all': keys(x for n in (u.get('lengths') or lengths(u)) for x in hg.pattern2edges((None,) * n)),
        'star': {key(v): keys(hg.star(v)) for v in u['vertices']},
        'roots': {r: keys(hg.symbols_with_root(r)) for r in u['roots']},
        'degree': {key(v): hg.degree(v) for v in u['vertices']},
        'timestamp': {key(v): hg.timestamp(v) for v in u['vertices']},
        'f_all': {key(v): d for v, d in list(hg.f_all(lambda x: (x['vertex'], x['degree'])))},
    }


def model_snapshot(m, u):
    return {
        'exists': {key(e): m.exists(e) for e in u['edges']},
        'all': keys(e for e, _ in m.edges.values()),
        'star': {key(v): keys(m.star(v)) for v in u['vertices']},
        'roots': {r: keys(m.symbols_with_root(r)) for r in u['roots']},
        'degree': {key(v): m.degree(v) for v in u['vertices']},
        'timestamp': {key(v): m.timestamp(v) for v in u['vertices'] if m.timestamp(v) is not None},
        'f_all': m.vertices(),
    }


def differs(got, want):
    """Difference of two snapshots, the second of them of a model."""
    for kind, w in want.items():
        g = got[kind]
        if kind == 'all':
            if g != w:
                return 'edges: missing %s, wrong %s' % (show(w - g), show(g - w))
        else:
            for k, x in w.items():
                if g.get(k) != x:
                    return '%s of %s is %s, should be %s' % (
                        kind, unkey(k) if isinstance(k, tuple) else k,
                        show(g[k]) if isinstance(g.get(k), frozenset) else g.get(k),
                        show(x) if isinstance(x, frozenset) else x)
            if kind == 'f_all':
                for k, x in g.items():
                    if k not in w and x != 0:
                        return 'f_all visits %s with degree %s' % (unkey(k), x)
    return None


def universe(edges, extra_vertices=(), patterns=(), roots=None, extra_edges=()):
    """What to ask about: the edges, their vertices, and things that look like them."""
    es, vs = {}, {}

    def add_vertex(v):
        vs.setdefault(key(v), v)
        if is_edge(v):
            es.setdefault(key(v), v)

    for e in edges:
        es.setdefault(key(e), e)
        vs.setdefault(key(e), e)
        for v in e:
            add_vertex(v)
    for e in extra_edges:
        es.setdefault(key(e), e)
        vs.setdefault(key(e), e)
    for v in extra_vertices:
        add_vertex(v)
    if roots is None:
        roots = sorted(set(v.split('/')[0] for v in vs.values() if isinstance(v, str)))
    return {'edges': list(es.values()), 'vertices': list(vs.values()), 'patterns': list(patterns),
            'roots': [r for r in roots if r]}
