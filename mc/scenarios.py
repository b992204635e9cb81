"""Bounded worlds: operations, and what to ask about."""
from mc.hgmodel import key, is_edge
from mc.observe import universe

N = None


class Scenario:
    """All the sequences of its operations, up to a depth."""

    def __init__(self, name, ops, depth, more=None, tags=(), **ukw):
        self.name = name
        self.ops = list(ops)
        self.depth = depth
        self.more = more or depth + 1
        self.tags = set(tags)
        edges = ukw.pop('edges', None)
        if edges is None:
            edges = op_edges(self.ops)
        self.u = universe(edges, **ukw)


def op_edges(ops):
    res = {}
    for op in ops:
        for e in edges_of(op):
            res[key(e)] = e
    return list(res.values())


def edges_of(op):
    if op[0] in ('add', 'rem'):
        return list(op[1]) if is_edge(op[1][0]) else [op[1]]
    if op[0] == 'bel+':
        es = list(op[2]) if is_edge(op[2][0]) else [op[2]]
        return es + [('src/1', e, op[1]) for e in es]
    if op[0] == 'bel-':
        return [op[2], ('src/1', op[2], op[1])]
    if op[0] == 'batch':
        return [e for o in op[1] for e in edges_of(o)]
    return []


def add(e, *ts):
    return ('add', e) + ts


def rem(e):
    return ('rem', e)


def multi(*es):
    return list(es)


# edges that look like one another
E1 = ('is', 'bob', 'nice')
E2 = ('is', 'nice', 'bob')
E3 = ('is', 'bob')
E4 = ('is', 'bob', 'nice', 'is')
E5 = ('bob', 'is', 'nice')
E6 = ('is', 'bob', 'bob')

PATTERNS3 = [('is', N, N), (N, 'bob', N), (N, N, 'bob'), (N, 'bob', 'nice'), ('is', N, 'nice'), ('is', 'bob', N),
             ('is', 'nice', 'bob'), ('is', 'bob', 'nice'), (N, 'bob', 'bob'), (N, N, 'x'), ('bob', N, N),
             ('is', N), (N, 'bob'), (N, N), ('is', 'bob'), (N, N, N, 'is'), ('is', N, N, 'is'), (N, N, N, N),
             (N, 'is'), ('nice', N, N), (N, N, N), ('is', 'is', N), (N, 'is', 'is', N)]


def basic():
    return Scenario(
        'basic',
        [add(E1), add(E2), add(E3), add(E4), add(E5), add(E6), rem(E1), rem(E2), rem(E3), rem(E6), ('destroy',)],
        3, 4, patterns=PATTERNS3, extra_vertices=['x', 'bo', 'bobb', 'BOB'],
        extra_edges=[('is', 'bob', 'nice', 'bob'), ('bob', 'nice'), ('is', 'nice')])


INNER = ('likes', 'a', 'b')
OUTER = ('says', 'x', INNER)
TWICE = ('same', INNER, INNER)
DEEP = ('thinks', 'y', OUTER)
HEAD = (INNER, 'z')
LOOK = ('says', 'x', 'likes', 'a', 'b')


def nested():
    return Scenario(
        'nested',
        [add(INNER, 5), add(OUTER, 6), add(TWICE, 7), add(DEEP, 8), rem(INNER), rem(OUTER), rem(TWICE),
         add(multi(OUTER, INNER), 9), add(multi(HEAD), 10), rem(multi(HEAD)), rem(multi(INNER, OUTER)), ('destroy',)],
        3, 4, extra_edges=[LOOK, ('likes', 'a'), ('likes', 'b', 'a')], extra_vertices=['likes', 'c'],
        patterns=[('says', N, INNER), (N, N, INNER), (N, INNER, N), (N, INNER, INNER), (INNER, N), (N, 'z'), (N, N, OUTER),
                  (N, 'x', N), (N, 'a', N), (N, N, 'b'), ('thinks', 'y', OUTER), (N, N, ('likes', 'b', 'a')), (N, N, N),
                  ('says', 'x', N), (N, N)])


def numbers():
    a, b, c = ('n', 7), ('m', 7.0), ('n', -7, 7)
    d, e = ('k', 0.5, 1e-05), ('n', 10 ** 25, 70)
    return Scenario(
        'numbers',
        [add(a, 0), add(b, 3), add(c, 4), add(d), add(e, 2 ** 40), rem(a), rem(('n', 7.0)), rem(b), rem(('m', 7)), rem(c),
         rem(d)],
        3, 4, edges=[a, b, c, d, e],
        extra_edges=[('n', 7.0), ('m', 7), ('n', -7.0, 7), ('n', 7, -7), ('n', 70)],
        extra_vertices=[7, 7.0, -7, 70, 77, 0, 1e25, 0.00001, -7.0],
        patterns=[(N, 7), (N, 7.0), (N, -7, N), (N, N, 7), (7, N), (N, 0.5, N), (N, N, 1e-05), (N, 10 ** 25, N), (N, N),
                  (N, N, N), ('n', N), ('n', N, 70), (N, 1e25, N)])


def prefixes():
    es = [('a', 'b'), ('a/1', 'b'), ('a/10', 'b'), ('ab', 'b'), ('b', 'a/1'), ('a/', 'a'), ('r', 'a/2', 'a0')]
    return Scenario(
        'prefixes', [add(e) for e in es] + [rem(e) for e in es[:4]],
        3, 4, extra_vertices=['a/100', 'a0', 'A', 'a/1/1', 'a-', 'a.'], roots=['a', 'ab', 'b', 'a0', 'aa', 'r', 'A'],
        patterns=[('a', N), ('a/1', N), (N, 'b'), (N, 'a'), ('a/', N), ('ab', N), (N, 'a/1'), ('a/10', 'b'), (N, 'a0'), (N, N),
                  (N, 'a/2', N), (N, N, 'a0')])


def timestamps():
    a, b, c = ('r', 'a', 'b'), ('r', 'b', 'c'), ('q', ('r', 'a', 'b'))
    return Scenario(
        'timestamps',
        [add(a), add(a, 0), add(a, 5), add(b, 3), add(b, 2 ** 40), add(c, 7), add(multi(a, b), 9), rem(a), rem(b), rem(c),
         ('destroy',)],
        3, 4, extra_vertices=['d'], patterns=[('r', N, N), (N, N)])


def several():
    a, b, c, d = ('r', 'a', 'b'), ('r', 'b', 'a'), ('s', 'a'), ('t', 'a', 'a', 'c')
    return Scenario(
        'several',
        [add(multi(a, b), 1), add((a, a), 2), add(multi(b, c, a)), add((d,), 3), rem(multi(a, b)), rem(multi(a, a)), rem((c, b)),
         rem(multi(d, a)), add(d), rem(b), add(list(a)), rem(list(d))],
        3, 4, patterns=[('r', N, N), (N, 'a', N), (N, N), (N, 'a', 'a', N)])


def by_pattern():
    a, b, c, d = ('r', 'a', 'b'), ('r', 'b', 'a'), ('s', 'a', 'b'), ('r', 'a')
    f = ('p', ('r', 'a', 'b'), 'a')
    return Scenario(
        'by_pattern',
        [add(multi(a, b), 1), add(c), add(d, 4), add(f, 5), ('rbp', ('r', N, N)), ('rbp', (N, 'a', N)), ('rbp', (N, N, N)),
         ('rbp', ('r', 'a', 'b')), ('rbp', (N, N, 'z')), ('rbp', (N, N)), ('rbp', (N, ('r', 'a', 'b'), N)), rem(a)],
        3, 4, patterns=[('r', N, N), (N, 'a', N), (N, N), (N, N, 'b')])


def batches():
    a, b, c = ('r', 'a', 'b'), ('s', 'b', 'a/1'), ('p', ('r', 'a', 'b'))
    vs = ['a', 'b', a, c]
    return Scenario(
        'batches',
        [('batch', [add(a, 1), add(b, 2)]), ('batch', [add(a, 3), rem(a)]), ('batch', [rem(a), add(multi(a, c), 4), rem(b)]),
         ('batch', []), ('batch', [('touch', vs), add(c, 5), ('touch', vs), rem(c), ('touch', vs)]),
         ('batch', [('batch', [add(a, 6)]), add(b, 7)]), ('batch', [('destroy',), add(b, 8)]), ('touch', vs), add(c, 9), rem(a),
         ('batch', [add(c), ('batch', [rem(c)]), ('batch', [add(a)])])],
        3, 4, patterns=[('r', N, N), (N, 'b', N), (N, N)])


def odd_names():
    a = ("it's", '"q"', 'x;--')
    b = ('A', 'a%', '_', '*')
    c = ('a', 'A', 'a?')
    d = ('\u00e9', '\u65e5\u672c', '\U0001F600')
    e = ('http://a.b/x_(y)', 'None', 'null')
    f = ('%', 'a', '[a-z]', '\\')
    return Scenario(
        'odd_names', [add(x) for x in (a, b, c, d, e, f)] + [rem(x) for x in (a, b, c, d, e, f)],
        2, 3, extra_vertices=["it''s", 'aa', 'x', '__', '\u00c9', 'NULL', 'none', 'e', '\\\\'],
        roots=['a', 'A', '%', '_', "it's", '"q"', 'x;--', '*', 'a%'],
        patterns=[('A', N, N), ('a', N, N), (N, 'a', N), (N, 'A', N), (N, 'a%', N, N), (N, N, '_', N), ('%', N, N, N), (N, N, N, '*'),
                  (N, N, 'x;--'), ("it's", N, N), (N, '\u65e5\u672c', N), (N, 'None', N), (N, N, 'null'), (N, N, N),
                  (N, N, N, N), (N, N, N, '\\')])


def wide():
    a = ('r', 'a', 'b', 'c', 'd')
    b = ('r', 'a', 'b', 'c', 'd', 'a')
    c = ('r', 'd', 'c', 'b', 'a')
    return Scenario(
        'wide', [add(a, 1), add(b, 2), add(c, 3), rem(a), rem(b), rem(c)], 3, 3,
        patterns=[(N, 'a', N, N, N), (N, N, N, N, 'd'), (N, N, 'b', 'c', N), ('r', N, N, N, N), (N, 'a', N, N, N, 'a'),
                  (N, N, N, N, N, 'a'), (N, 'a', 'b', 'c', 'd'), (N,) * 5, (N,) * 6, ('r', 'a', 'b', 'c', N),
                  ('r', 'a', N, N, 'd'), (N, 'd', N, 'b', N)])


def common():
    return [basic(), nested(), numbers(), prefixes(), timestamps(), several(), by_pattern(), batches(), odd_names(), wide()]


# vertices of every kind
SYMBOLS = ['a', 'A', 'ab', 'b', 'a/1', 'a/10', 'a/1/2', 'a/', '/', "a'b", "'", 'a"b', '"', 'a;b', ';', '--', 'a%', '%', '_',
           'a_b', '*', '[a]', '[', '?', '??', '\\', 'a\\', 'a,b', ',', '.', '-', 'a-b', '~a', '\u00e9', '\u00c9',
           '\u65e5\u672c', '\U0001F600', '+', 'a+b', 'None', 'NULL', 'null', 'select', '1a', '7x', '-a', '1e5', 'e5',
           'nan', 'inf', '0x10', '1_000', '\u0663', '1/2', '1-2', '-.-', '#', '@', '!', '~', '`', '{}', '<a>', '&', '=', '|',
           '$1', ':a', ':', '%s', '%d', '?1', 'http://a.b/c', 'https://x.org/y_(z)', 'http://a(b)c', 'f(x)', 'f(x)(y)',
           'f()', 'f((x))', 'True', 'rowid', 'perms', '0', 'a' * 300, '\u00df', 'ss', 'I', '\u0131', 'a\x01b', '\ufeff',
           'a0', 'a\u0301', '\u00e1', '1.2.3', '..', '1..2', '--1', '-1-', 'f(g(h(i)))', 'a(b)c(d)e(f)',
           '\u00e9' * 300]
SYMBOLS = [s for s in SYMBOLS if s != '0']
NUMBERS = [0, 1, 7, -7, 10, 100, 2 ** 31, 2 ** 63, 10 ** 30, -10 ** 20, 7.5, -7.5, 0.1, 1e-05, -1e-05, 1e+16, 1.5e-10, 1e308,
           5e-324, 123456789.125, -0.25, 1e22, 0.1 + 0.2, 2 ** 53 + 1, -0.0, 1e23, 10 ** 400]
NESTED = [('a', 'b'), ('b', 'a'), ('a', ('a', 'b')), ('a', 7), ('a', 7.5), ('a', 'b', 'c'), (('a', 'b'), 'c'),
          ('a', ('b', ('c', 'd'))), ('a', 'f(x)'), ('a', ('b', 'f(x)')), ('a', 'http://x.y/(z)'), ('a', 1e-05),
          (('a', 'f(x)'), ('b', 'f(x)')), ('a', ('b', 'c'), ('d', 'e')),
          ('a', ('b', ('c', ('d', ('e', 'f'))))), ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j')]


def rich_vertices():
    return SYMBOLS + NUMBERS + NESTED


def lookalikes(v):
    """Other vertices that could be confused with a vertex."""
    res = []
    if isinstance(v, str):
        res += [v + 'x', v + '/1', v.upper(), v.lower(), v.swapcase(), v[:-1], v[1:], v.replace('_', 'x'), v.replace('%', 'x'),
                v * 2, v + '%', v + '_', v.replace("'", "''")]
    elif isinstance(v, int):
        res += [float(v) if abs(v) < 10 ** 300 else v, -v, v * 10, v + 1, 'x%s' % v]
    elif isinstance(v, float):
        res += [-v, v * 2, 'x%s' % v, v + 1]
        if abs(v) < 1e15 and v == int(v):
            res.append(int(v))
    else:
        res += [tuple(reversed(v)), v + ('x',), v[0]] + ([v[:-1]] if len(v) > 2 else [])
    return [x for x in res if valid(x) and key(x) != key(v)]


def reads_as_number(s):
    try:
        float(s)
    except ValueError:
        return s.lstrip('-').isdigit() or s in ('.', '-')
    return s.lower().lstrip('+-') not in ('nan', 'inf', 'infinity')


def valid(v):
    if isinstance(v, str):
        if not v or any(c.isspace() for c in v) or v[0] == '(':
            return False
        d = 0
        for c in v:
            d += (c == '(') - (c == ')')
            if d < 0:
                return False
        return d == 0 and not (reads_as_number(v) and v not in ('1e5', '.', '-', '\u0663', '1_000'))
    if isinstance(v, float):
        return v == v and abs(v) != float('inf')
    if is_edge(v):
        return len(v) > 1 and all(valid(x) for x in v)
    return True


def extremes():
    """Unusual timestamps and vertices."""
    a, b, c = ('r', 'a/1', 'é'), ('http://x.y/(z)', -7.5, 10 ** 30), ('~s', ('A', 'a%', 1e-05), '\U0001F600')
    return Scenario(
        'extremes',
        [add(a, -1000), add(b, 2 ** 63 - 1), add(multi(c, ('A', 'a%')), -2 ** 63), add(('A', 'a%', 1e-05), -2), rem(a), rem(c),
         add(('r', 'é', 'f(x)'), -1)],
        3, 4, extra_vertices=['z', 'A', 'a'], roots=['a', 'A', 'r'], patterns=[('r', N, N), (N, N, 10 ** 30), (N, N)])


# timestamps are any integers, -1 is none
TIMESTAMPS = [-1, 0, 1, -2, -7000, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 1500000000000, -2 ** 40, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]
