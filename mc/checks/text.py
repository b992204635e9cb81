"""E01-E03, Y01-Y03: text representation of edges, permutations, symbols."""
import itertools
import math
import unicodedata

from mc.core import Check, Mismatch, short
from mc.hgmodel import key, is_edge
import mc.scenarios as sc

TECH = 'exhaustive enumeration of a bounded input space on the real code, against an independent definition'


def text_of(v):
    """The written form, by definition."""
    if is_edge(v):
        return '(' + ' '.join(text_of(x) for x in v) + ')'
    return v if isinstance(v, str) else repr(v)


def expect(what, got, want):
    if key(got) != key(want):
        raise Mismatch('%s is %s, should be %s' % (what, short(got), short(want)))


class Enum(Check):
    level = 'exploration'
    technique = TECH

    def sampled(self, rec, case):
        rec.count('evaluations')
        rec.seen(case)
        rec.sample(case)


def chars(n):
    """Every valid symbol up to a length over characters that mean something to the reader."""
    res = []
    for k in range(1, n + 1):
        for t in itertools.product('a(/)7-.e~', repeat=k):
            s = ''.join(t)
            if sc.valid(s) and s not in res:
                res.append(s)
    return res


def balanced(n):
    """Every balanced sequence of n pairs of parentheses."""
    if n == 0:
        return ['']
    return ['(%s)%s' % (a, b) for i in range(n) for a in balanced(i) for b in balanced(n - 1 - i)]


class E01(Enum):
    """Cases: an edge or vertex."""
    prop = 'E01'
    rule = ('every edge up to a size over vertices of every kind, with nested edges at each place; every symbol up to a length '
            'over characters that mean something to the reader, first, last and inside of edges; every balanced sequence of parentheses up to a length; distinct edges in each block '
            'must have distinct texts')
    assumptions = ['symbols are not empty, have no white space, have balanced parentheses and do not start with one, and do not '
                   'read as numbers']

    def setup(self):
        self.syms = chars(6 if self.thorough else 5)
        self.rich = [v for v in sc.rich_vertices()]

    def describe(self):
        return {'bounds': {'symbols': len(self.syms), 'unusual_vertices': len(self.rich)}}

    def blocks(self):
        for i in range(0, len(self.syms), 400):
            yield ('sym', i)
        for i in range(len(self.rich)):
            yield ('rich', i)
        for i in range(len(self.atoms())):
            yield ('shape', i)
        yield ('numbers', 0)
        yield ('deep', 0)
        for n in range(1, 8 if self.thorough else 7):
            yield ('parens', n)
        yield ('lengths', 0)
        for i in range(0, 0x110000, 0x4000):
            if not 0xd800 <= i < 0xe000:
                yield ('chars', i)

    def atoms(self):
        return ['a', 'b/1', 'f(x)', 7, -1.5, 'http://x/(y)']

    def around(self, s):
        return ((s, 'x'), ('x', s), ('x', ('y', s)), ('x', (s, 'y'), 'z'), ((s, s), s), ('x', ('y', ('z', s))), (('x', s), 'y'),
                ((s, 'x'), ('y', s), 'z'), (((s, s), s), s), s)

    def cases(self, block):
        if block[0] == 'sym':
            for s in self.syms[block[1]:block[1] + 400]:
                for e in self.around(s):
                    yield e
        elif block[0] == 'parens':
            # every balanced sequence of parentheses, with nothing, or something, between them
            for d in balanced(block[1]):
                for s in ('a' + d, 'a' + d + 'b', 'a' + d.replace('()', '(b)'), 'a' + 'b'.join(d), 'a' + d.replace(')(', ')b('),
                          'http://a.b/' + d.replace('()', '(c)')):
                    for e in self.around(s):
                        yield e
        elif block[0] == 'lengths':
            for n in list(range(7, 70)) + [99, 100, 127, 128, 250, 255, 256, 257, 1000, 1024, 4096, 10000, 70000]:
                for s in ('a' * n, 'a' + '(' * n + ')' * n, 'a' + '(b' * n + ')' * n, 'a' + '()' * n, 'a' + '(b)' * n, 'a' + '/' * n,
                          '1' * n + 'a', '~' + '.' * n, '\u00e9' * n, 'http://' + 'a' * n):
                    if len(s) <= 4096 or s[:2] == 'aa':
                        for e in self.around(s):
                            yield e
                if n <= 4096:
                    yield ('x', 10 ** n, -10 ** n + 1)
        elif block[0] == 'rich':
            v = self.rich[block[1]]
            yield v
            for w in self.rich:
                for e in ((v, w), ('x', (v, w), w), ((v, w), w, v), (v, (w, (v, w)))):
                    yield e
        elif block[0] == 'shape':
            first = self.atoms()[block[1]]
            parts = self.atoms()
            pairs = list(itertools.product(parts[:4], repeat=2))
            elems = parts + pairs + [(p, 'a') for p in pairs[:6]] + [('a', p) for p in pairs[:6]]
            for n in (1, 2, 3) if self.thorough else (1, 2):
                for rest in itertools.product(elems, repeat=n):
                    yield (first,) + rest
                    yield ((first, 'a'),) + rest
        elif block[0] == 'numbers':
            for n in range(-2000, 2001):
                yield ('x', n)
                yield (n, float(n) / 8)
            for e in range(-320, 309):
                for m in ('1', '-1', '1.5', '9.007199254740993'):
                    f = float('%se%d' % (m, e))
                    if f not in (0.0, float('inf'), float('-inf')):
                        yield ('x', f)
            for k in range(200):
                yield ('x', 10 ** k, -2 ** k)
            yield ('x', -0.0)
        elif block[0] == 'chars':
            for i in range(block[1], block[1] + 0x4000):
                c = chr(i)
                if c.isspace() or c in '()' or 0xd800 <= i < 0xe000:
                    continue
                if self.thorough or i < 0x400 or i % 8 == 0:
                    e = (c + 'a', 'b' + c + 'c', ('d' + c, c + c + c))
                    yield e if sc.valid(e) else e[:2] + (('d' + c, c + '/' + c),)
        else:
            e = 'a'
            f = 'a'
            for n in range(150):
                e = ('r', e)
                f = (f, 'r')
                if n < 60 or n % 10 == 9:
                    yield e
                    yield f
                    yield (e, f, 7, 'f(x)')
            for n in range(2, 40):
                yield tuple('v%d' % i for i in range(n))
                yield ('x', tuple('v%d' % i for i in range(n)), 'y')

    def block(self, block, rec):
        seen = {}
        import gb.hypergraph.edge as ed
        for e in self.cases(block):
            if not self.attempt(e, rec):
                return
            t = ed.edge2str(e)
            if seen.setdefault(t, key(e)) != key(e):
                rec.fail(('same', e, t), 'different edges have the same text %s' % t)
                return

    def run_case(self, e, rec):
        import gb.hypergraph.edge as ed
        if is_edge(e) and e and e[0] == 'same':
            e = e[1]
        s = ed.edge2str(e)
        expect('edge2str(%s)' % short(e), s, text_of(e))
        back = ed.str2edge(s)
        expect('str2edge(%s)' % short(s), back, e)
        if is_edge(e):
            if not isinstance(back, tuple):
                raise Mismatch('str2edge(%s) is not a tuple' % short(s))
            inner = ed.nodes2str(e)
            expect('nodes2str(%s)' % short(e), inner, ' '.join(text_of(x) for x in e))
            expect('str2edge(%s)' % short(inner), ed.str2edge(inner), e)
            texts = tuple(text_of(x) for x in e)
            expect('split_edge_str(%s)' % short(s), tuple(ed.split_edge_str(s)), texts)
            expect('split_edge_str(%s)' % short(inner), tuple(ed.split_edge_str(inner)), texts)
            expect('edge2str of a list', ed.edge2str(list(e)), s)
        self.sampled(rec, e)


def numbered(n, k):
    """Positions of permutation k of n elements, in lexicographic order."""
    rest = list(range(n))
    res = []
    for i in range(n - 1, -1, -1):
        pos, k = divmod(k, math.factorial(i))
        res.append(rest.pop(pos))
    return tuple(res)


class E02(Enum):
    """Cases: ('rows', n): what is stored for an edge of n elements; ('numbers', n, ks): permutations of n elements."""
    prop = 'E02'
    rule = ('every permutation number of every length up to a bound, with distinct and with repeated elements; for longer ones, '
            'the first numbers and the ones around each multiple of the larger factorials that are not too large')

    def bound(self):
        return 8

    def blocks(self):
        for n in range(self.bound(), 0, -1):
            f = math.factorial(n)
            step = max(1, f // 16)
            for lo in range(0, f, step):
                yield ('numbers', n, range(lo, min(f, lo + step)))
            if n <= 7:
                yield ('rows', n)
        top = 4 * 10 ** 6 if self.thorough else 10 ** 6
        for n in range(self.bound() + 1, 14):
            ks = set(range(130)) | {math.factorial(n) - 1 - i for i in range(3)}
            for i in range(5, n):
                for j in range(1, n + 1):
                    ks |= {j * math.factorial(i) + d for d in (-1, 0, 1)}
            ks = sorted(k for k in ks if k < min(math.factorial(n), top))
            for i in range(4):
                yield ('numbers', n, ks[i::4])

    def describe(self):
        return {'bounds': {'all_numbers_up_to': self.bound(), 'some_numbers_up_to': 13}}

    def cases(self, block):
        yield block

    timeout = 1500

    def run_case(self, case, rec):
        import gb.hypergraph.sql as sql
        n = case[1]
        items = tuple('v%d' % i for i in range(n))
        odd = (('a', 'b'), 'a', 7, 'a', 7.5, 'f(x)', ('a', ('b', 'c')), 'z', 'y', 'x', 'w', 'y', 8)[:n]
        if case[0] == 'rows':
            every = list(itertools.permutations(range(n)))
            if any(numbered(n, k) != every[k] for k in range(len(every))):
                raise RuntimeError('the definition is wrong')
            for e in (items, odd):
                rows = []
                sql.do_with_edge_permutations(e, rows.append)
                want = sorted('%s %d' % (' '.join(text_of(e[i]) for i in p), k) for k, p in enumerate(every))
                if sorted(rows) != want:
                    raise Mismatch('do_with_edge_permutations of %s gives %s' % (e, short(rows)))
            return
        for k in case[2]:
            at = numbered(n, k)
            perm = sql.nthperm(items, k)
            expect('nthperm(%s, %d)' % (items, k), tuple(perm), tuple(items[i] for i in at))
            back = sql.unpermutate(tuple(perm), k)
            expect('unpermutate(%s, %d)' % (perm, k), tuple(back), items)
            expect('nthperm of a list', tuple(sql.nthperm(list(odd), k)), tuple(odd[i] for i in at))
            rec.count('evaluations')
            rec.seen((n, k))
        rec.sample((items, case[0], n))


class E03(Enum):
    """Cases: a symbol, or an edge that starts with a symbol."""
    prop = 'E03'
    rule = 'every symbol up to a length over a small alphabet, and edges that start with it'
    assumptions = ['symbols have at most one ~ at the beginning', 'edges start with a symbol']

    def blocks(self):
        return [(i,) for i in range(6)] + [(6, i) for i in range(0, 0x110000 if self.thorough else 0x20000, 0x2000)]

    def cases(self, block):
        if block[0] == 6:
            for i in range(max(0x21, block[1]), block[1] + 0x2000):
                c = chr(i)
                if c != '~' and not 0xd800 <= i < 0xe000:
                    for s in (c, '~' + c, c + 'a', 'a' + c, '~a' + c, c + '~'):
                        yield s
                        yield (s, c, '~' + c)
            return
        first = '~ab/1('[block[0]]
        n = 6 if self.thorough else 5
        for k in range(n):
            for t in itertools.product('ab~/1', repeat=k):
                s = first + ''.join(t)
                if s[:2] == '~~' or s == '~':
                    continue
                yield s
                if k < 4:
                    for rest in (('x',), ('~x', 'y'), (('~a', 'b'), 7), (s, s), (('a', s), -1.5, '~')):
                        yield (s,) + rest
        for v in sc.SYMBOLS:
            if v[:1] != '~':
                yield v
                yield '~' + v
                yield (v, 'x')
                yield ('~' + v, v)

    def run_case(self, case, rec):
        import gb.hypergraph.symbol as sym
        import gb.hypergraph.edge as ed
        mod = ed if is_edge(case) else sym
        head = case[0] if is_edge(case) else case
        if bool(mod.is_negative(case)) != (head[0] == '~'):
            raise Mismatch('is_negative(%s) is %s' % (short(case), mod.is_negative(case)))
        neg = mod.negative(case)
        want = head[1:] if head[0] == '~' else '~' + head
        expect('negative(%s)' % short(case), neg, (want,) + case[1:] if is_edge(case) else want)
        if bool(mod.is_negative(neg)) == bool(mod.is_negative(case)):
            raise Mismatch('is_negative does not change with negative(%s)' % short(case))
        expect('negative(negative(%s))' % short(case), mod.negative(neg), case)
        self.sampled(rec, case)


class Y01(Enum):
    """Cases: parts of a symbol, or another value."""
    prop = 'Y01'
    rule = 'every list of parts up to a length over strings up to a length; values of every other type'

    def parts(self):
        return ['', 'a', 'b', 'ab', '1', '.', 'a_b', 'A', '\u00e9', 'http:', '~a', 'wn.a.n.01', '(', ' ', '__', 'HTTP:'] if self.thorough else \
            ['', 'a', 'ab', '1', 'a_b', '\u00e9', 'http:', 'https:', 'wn.a.n.01']

    def blocks(self):
        return [('parts', i) for i in range(len(self.parts()))] + [('others',)] + \
            [('chars', i) for i in range(0, 0x110000 if self.thorough else 0x20000, 0x2000)]

    def cases(self, block):
        ps = self.parts()
        if block[0] == 'parts':
            for n in range(0, 5 if self.thorough else 4):
                for t in itertools.product(ps, repeat=n):
                    yield ('parts', (ps[block[1]],) + t)
        elif block[0] == 'chars':
            for i in range(block[1], block[1] + 0x2000):
                c = chr(i)
                if c != '/' and not 0xd800 <= i < 0xe000:
                    for ps in ((c,), (c, 'a'), ('a', c), (c + c, 'b' + c, c), ('a' + c + 'b', '', c + 'a'), ('_' + c + '_', 'a')):
                        yield ('parts', ps)
            for s in ('http', 'https', 'http:', 'https:', 'HTTP:', 'Https:', 'ftp:', 'file:', 'xhttp:', 'httpx:', 'http:x', 'hhttps:', 'htt', 'mailto:a@b',
                      'www.a.b', 'urn:x', 'http;', ' http:', '~http:', '~https:', 'http:_', 'http:\\\\', '//http:'.strip('/')):
                for t in ((), ('',), ('', ''), ('', 'a'), ('', 'a.b', 'c_d'), ('a',), ('a', '', 'b')):
                    yield ('parts', (s,) + t)
        else:
            for v in sc.NUMBERS + sc.NESTED + ['http://a/b', 'https://a/b/c', 'http://', 'https://', [1, 2], ['a', 'b'],
                                               ('a_b', 'c_d/1'), ('a', ('b_', '_')), ('r', '/', 'x'), 'http://x.y', 'https://en.wikipedia.org/wiki/A/B_(c)', -5, 0, 0.0]:
                yield ('other', v)
            for v in (None, object, {'a': 1}, {1}, b'ab'):
                yield ('unknown', v)

    def run_case(self, case, rec):
        import gb.hypergraph.symbol as sym
        T = sym.SymbolType
        if len(set((T.UNKNOWN, T.CONCEPT, T.EDGE, T.INTEGER, T.FLOAT, T.URL))) != 6:
            raise Mismatch('types of symbols are not distinct')
        kind, v = case
        if kind == 'parts':
            s = sym.build(v)
            expect('build(%s)' % short(v), s, '/'.join(v))
            expect('build(%s)' % short(list(v)), sym.build(list(v)), s)
            url = s[:7] == 'http://' or s[:8] == 'https://'
            typ = T.URL if url else T.CONCEPT
            ps = [s] if url else list(v)
        else:
            s = v
            typ = T.UNKNOWN if kind == 'unknown' else (
                T.EDGE if is_edge(v) else T.URL if isinstance(v, str) else T.INTEGER if isinstance(v, int) else T.FLOAT)
            ps = [v]
        if sym.sym_type(s) != typ:
            raise Mismatch('sym_type(%s) is %s, should be %s' % (short(s), sym.sym_type(s), typ))
        if kind != 'unknown' and isinstance(s, str):
            # one more part is a different decomposition
            ps2 = sym.parts(s)
            expect('parts(%s)' % short(s), tuple(ps2), tuple(ps) if typ == T.URL else tuple(x for p in ps for x in p.split('/')))
            ps = list(ps2)
        else:
            expect('parts(%s)' % short(s), tuple(sym.parts(s)), tuple(ps))
        expect('root(%s)' % short(s), sym.root(s), ps[0])
        expect('nspace(%s)' % short(s), sym.nspace(s), ps[1] if len(ps) > 1 else None)
        if bool(sym.is_root(s)) != (len(ps) == 1):
            raise Mismatch('is_root(%s) is %s' % (short(s), sym.is_root(s)))
        if typ == T.CONCEPT:
            expect('symbol2str(%s)' % short(s), sym.symbol2str(s), ps[0].replace('_', ' '))
        elif typ == T.URL:
            expect('symbol2str(%s)' % short(s), sym.symbol2str(s), s)
        elif typ in (T.INTEGER, T.FLOAT, T.EDGE):
            expect('symbol2str(%s)' % short(s), sym.symbol2str(s), str(s))
        self.sampled(rec, (kind, repr(v)))


class Y02(Enum):
    """Cases: a string."""
    prop = 'Y02'
    rule = 'every string up to a length over separators, letters and digits, and every character of Unicode in a text'

    def alphabet(self):
        return ' /()aB_7.-\t\n\u00c9\u00a0\u2003' + ('~\r\x0b%' if self.thorough else '~')

    def blocks(self):
        for c in self.alphabet():
            yield ('s', c)
        for i in range(0, 0x110000, 0x4000):
            if not 0xd800 <= i < 0xe000:
                yield ('u', i)

    def cases(self, block):
        if block[0] == 's':
            for n in range(0, 5 if self.thorough else 4):
                for t in itertools.product(self.alphabet(), repeat=n):
                    yield block[1] + ''.join(t)
        else:
            for i in range(block[1], block[1] + 0x4000):
                yield '%saB%sBa%s' % ((chr(i),) * 3)

    def run_case(self, s, rec):
        import gb.hypergraph.symbol as sym
        import gb.hypergraph.edge as ed
        r = sym.str2symbol(s)
        want = ''.join('_' if c.isspace() or c in '/()' else c for c in s.lower())
        expect('str2symbol(%r)' % s, r, want)
        expect('str2symbol(%r)' % r, sym.str2symbol(r), r)
        words = want.replace('_', ' ')
        if r and not sc.reads_as_number(r):
            expect('root(%r)' % r, sym.root(r), r)
            if not sym.is_root(r):
                raise Mismatch('%r is not a root' % r)
            for e in ((r, 'x'), ('x', r), ('x', (r, r))):
                expect('reading of %s' % short(e), ed.str2edge(ed.edge2str(e)), e)
            expect('symbol2str(%r)' % r, sym.symbol2str(r), words)
        rec.count('evaluations')
        rec.seen(r)
        rec.sample(s)


class Y03(Enum):
    """Cases: ('hash', s) or ('meaning', s, prefix)."""
    prop = 'Y03'
    rule = 'every string up to a length over characters of every size; roots and symbols of every kind with every prefix'
    assumptions = ['two random hashes are never the same']

    def blocks(self):
        for c in 'aZ0~\u00e9\u65e5\U0001F600 \x00\uffff':
            yield ('hash', c)
        yield ('long',)
        yield ('meaning',)

    def cases(self, block):
        if block[0] == 'hash':
            for n in range(0, 5 if self.thorough else 4):
                for t in itertools.product('aZ0~\u00e9\u65e5\U0001F600 ', repeat=n):
                    yield ('hash', block[1] + ''.join(t))
        elif block[0] == 'long':
            yield ('hash', '')
            for n in (1, 2, 10, 12, 13, 14, 20, 50, 100, 257, 1000, 1024, 1500, 4097):
                for c in 'a\u00ff\U0010ffff':
                    yield ('hash', c * n)
                    yield ('hash', c * n + 'b')
        else:
            for s in [x for x in sc.SYMBOLS if not x.startswith('http')] + ['graphbrain', 'a_b', 'a/1', 'a/b/c', '7x']:
                for prefix in ('', 'wn.', 'x', '1', 'wn/', '/', 'A', '~', '%s', '{}', '_', 'é', '(', 'wn.n' * 20):
                    yield ('meaning', s, prefix)

    def run_case(self, case, rec):
        import gb.hypergraph.symbol as sym
        if case[0] == 'hash':
            h = 1125899906842597
            for c in case[1]:
                h = (31 * (h + ord(c))) % 2 ** 64
            for _ in range(2):
                got = sym.hashed(case[1])
                if got != '%x' % h:
                    raise Mismatch('hashed(%s) is %s, should be %x' % (short(case[1]), got, h))
        else:
            _, s, prefix = case
            outs = [sym.new_meaning(s, prefix) if prefix else sym.new_meaning(s) for _ in range(4)]
            if '/' in s:
                for o in outs:
                    expect('new_meaning(%r)' % s, o, s)
            else:
                for o in outs:
                    r, _, ns = o.partition('/')
                    if r != s or not ns.startswith(prefix) or not ns[len(prefix):] or \
                            any(c not in '0123456789abcdef' for c in ns[len(prefix):]) or len(ns) > len(prefix) + 16:
                        raise Mismatch('new_meaning(%r, %r) is %r' % (s, prefix, o))
                if len(set(outs)) != 4:
                    raise Mismatch('new_meaning(%r, %r) repeats: %s' % (s, prefix, outs))
        self.sampled(rec, case)
