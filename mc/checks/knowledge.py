"""K01-K07: from dependency trees to hyperedges."""
import contextlib
import io
import itertools

from mc.core import Check, Mismatch, short
import mc.trees as T
from mc.golden import GOLDEN

TECH = 'exhaustive enumeration of dependency trees on the real code, against a functional model of the stage'

KINDS = [('nsubj', 'NOUN', ''), ('det', 'DET', ''), ('aux', 'VERB', ''), ('prep', 'ADP', ''), ('compound', 'NOUN', 'GPE'),
         ('pobj', 'NOUN', 'GPE'), ('punct', 'PUNCT', ''), ('xcomp', 'VERB', ''), ('advmod', 'ADV', ''), ('amod', 'ADJ', '')]
ROOTS = [('ROOT', 'VERB', ''), ('ROOT', 'NOUN', 'GPE')]
# kinds of words of trees of five words
FIVE = {False: [(0, 3, 5, 7), (1, 3, 4, 8)], True: [(0, 2, 3, 5, 7), (1, 3, 4, 8, 9), (0, 1, 2, 3, 4, 5), (3, 4, 5, 7, 9)]}
SIX = {False: [], True: [(2, 3, 5)]}
SHAPE_KINDS = [('x', 'VERB', ''), ('pobj', 'NOUN', 'GPE'), ('det', 'DET', ''), ('x', 'ADJ', '')]
ODD_WORDS = ["it's", '1st', '2016', '-', '\u00e9', 'u.s.', '%', '1.5', '~', 'a_b', "'", '@x', 'http:', '?', '_', 'x' * 50, '\u65e5\u672c', 'none']


def shapes(n, memo={}):
    """Every ordered tree with n leaves where each group has two elements at least."""
    if n == 1:
        return ['.']
    if n not in memo:
        res = []

        def split(m, k):
            if k == 1:
                yield (m,)
                return
            for i in range(1, m - k + 2):
                for r in split(m - i, k - 1):
                    yield (i,) + r
        for k in range(2, n + 1):
            for s in split(n, k):
                res += list(itertools.product(*[shapes(i) for i in s]))
        memo[n] = res
    return memo[n]


def words(kinds):
    return tuple(T.spec(*k) for k in kinds)


class TreeCheck(Check):
    """Cases: ('dep', heads, words): a sentence with those heads and words. ('tree', shape, words): a tree made directly.
    ('golden', i): a documented example."""
    level = 'exploration'
    technique = TECH
    stage = 1
    timeout = 60
    rule = ('every dependency tree up to three words over all labels of dependencies and parts of speech, and up to four, five or '
            'six words over lists of kinds of words, and some trees of up to 16 words; for the stages after the first also every tree up to six or seven words '
            'made directly; the documented examples')
    assumptions = ['the earlier stages give something: what they do is for their own properties']

    # --- space

    def describe(self):
        return {'bounds': {'all_labels': 'two words: %d dependencies by %d parts of speech; three words: all dependencies, and all '
                                         'parts of speech of relations' % (len(T.DEPS), len(T.POS)),
                           'four_words': len(KINDS), 'five_words': [len(k) for k in FIVE[self.thorough]],
                           'six_words': [len(k) for k in SIX[self.thorough]],
                           'made_directly': [len(self.direct_kinds(n)) for n in self.direct_sizes()]}}

    def direct_sizes(self):
        if self.stage == 1:
            return []
        return [2, 3, 4, 5, 6, 7] if not self.thorough else [2, 3, 4, 5, 6, 7, 8]

    def direct_kinds(self, n):
        if n <= 5:
            return SHAPE_KINDS
        if n == 6 and self.thorough:
            return SHAPE_KINDS[:3]
        return SHAPE_KINDS[:2]

    def blocks(self):
        for i in range(len(GOLDEN)):
            yield ('golden', i)
        for h in list(T.heads_of(1)) + list(T.heads_of(2)):
            for d in range(0, len(T.DEPS), 6):
                yield ('two', h, d)
        for h in T.heads_of(3):
            for d in range(0, len(T.DEPS), 9):
                yield ('three', h, d)
        for h in T.heads_of(4):
            yield ('four', h)
        for i, ks in enumerate(FIVE[self.thorough]):
            for h in T.heads_of(5):
                yield ('five', h, ks)
        for ks in SIX[self.thorough]:
            for h in T.heads_of(6):
                yield ('five', h, ks)
        for n in (6, 7, 9, 12, 16):
            for i in range(len(T.long_heads(n))):
                yield ('long', n, i)
        for i in range(0, 0x110000, 0x4000):
            yield ('chars', i)
        for n in self.direct_sizes():
            ss = shapes(n)
            for i in range(0, len(ss), 20):
                yield ('direct', n, i)

    def cases(self, block):
        if block[0] == 'golden':
            yield block
        elif block[0] == 'two':
            _, h, d = block
            r = T.root_of(h)
            ents = ['', 'GPE', None] if self.stage == 2 else ['', 'GPE']
            if len(h) == 1:
                for p in T.POS:
                    for e in ents:
                        yield ('dep', h, words([('ROOT', p, e)]))
                return
            for dep in T.DEPS[d:d + 6]:
                for p in T.POS:
                    for e in ents:
                        for root in [('ROOT', 'VERB', ''), ('ROOT', 'NOUN', 'GPE'), ('ROOT', 'ADP', None), ('ROOT', 'NOUN', 'ORG')]:
                            yield ('dep', h, words([root if i == r else (dep, p, e) for i in (0, 1)]))
        elif block[0] == 'three':
            _, h, d = block
            r = T.root_of(h)
            for dep in T.DEPS[d:d + 9]:
                for other in T.DEPS:
                    for root in ROOTS:
                        it = iter([(dep, 'NOUN', 'GPE'), (other, 'VERB', '')])
                        yield ('dep', h, words([root if i == r else next(it) for i in range(3)]))
                        it = iter([(other, 'ADP', ''), (dep, 'NOUN', 'GPE')])
                        yield ('dep', h, words([root if i == r else next(it) for i in range(3)]))
            if d == 0:
                # articles, and words with the same text
                for lemma in ('the', 'a', 'an', 'some', 'The', 'this', 'th', 'e', 'n', 'he', 'them', 'ana', 'A', ''):
                    for dep in ('det', 'nsubj', 'dobj'):
                        for p in ('DET', 'NOUN', 'PRON'):
                            for at in range(3):
                                ks = [(('ROOT', 'VERB', '', None, None) if i == r else ('dobj', 'NOUN', '', None, None))
                                      for i in range(3)]
                                ks[at] = ('ROOT' if at == r else dep, p, '', lemma + 'x', lemma)
                                yield ('dep', h, tuple(ks))
                                if p == 'DET' and lemma in T.ARTICLES:
                                    ks[at] = ('ROOT' if at == r else dep, p, '', lemma, lemma + 'x')
                                    yield ('dep', h, tuple(ks))
                for w in ODD_WORDS:
                    for at in range(3):
                        ks = [(('ROOT', 'VERB', '', None, None) if i == r else ('dobj', 'NOUN', '', None, None)) for i in range(3)]
                        ks[at] = ks[at][:3] + (w, w)
                        yield ('dep', h, tuple(ks))
                        ks[(at + 1) % 3] = ks[(at + 1) % 3][:3] + (w, w)
                        yield ('dep', h, tuple(ks))
        elif block[0] in ('four', 'five'):
            h = block[1]
            ks = KINDS if block[0] == 'four' else [KINDS[i] for i in block[2]]
            r = T.root_of(h)
            roots = ROOTS if block[0] == 'four' else ROOTS[:1] if len(h) > 5 else ROOTS
            for t in itertools.product(*[roots if i == r else ks for i in range(len(h))]):
                yield ('dep', h, words(t))
            if block[0] == 'four':
                # the same word twice
                for t in itertools.product(*[roots[:1] if i == r else [KINDS[0], KINDS[3], KINDS[7]] for i in range(4)]):
                    yield ('dep', h, tuple(T.spec(*(k + ('same', 'same'))) for k in t))
        elif block[0] == 'chars':
            # words with characters of all Unicode, alone, with others, in compounds
            cs = [chr(i) for i in range(block[1], block[1] + 0x4000) if not 0xd800 <= i < 0xe000]
            cs = [c for c in cs if c not in '/()' and not c.isspace()
                  and (ord(c) < 0x250 or ord(c) % 211 == 0 or (c != c.lower() and (self.thorough or ord(c) % 16 == 0)))]
            for c in cs:
                ws = [c + 'x', 'a' + c, c, 'A%sB' % c]
                for k in (0, 2):
                    ks = [(d, p, '', ws[(i + k) % 4], ws[(i + k + 1) % 4]) for i, (d, p) in
                          enumerate((('dobj', 'NOUN'), ('nsubj', 'NOUN'), ('aux', 'VERB')))]
                    for h in list(T.heads_of(3))[:6]:
                        r = T.root_of(h)
                        yield ('dep', h, tuple(('ROOT',) + x[1:] if i == r else x for i, x in enumerate(ks)))
                        yield ('dep', h, tuple(('compound', 'NOUN', 'GPE') + x[3:] if i != r else ('ROOT', 'NOUN', 'GPE') + x[3:]
                                               for i, x in enumerate(ks)))
        elif block[0] == 'long':
            _, n, i = block
            h = T.long_heads(n)[i]
            r = T.root_of(h)
            for k in (1, 2, 3) if self.thorough else (1, 2):
                for t in itertools.product(KINDS, repeat=k):
                    for root in ROOTS:
                        yield ('dep', h, words([root if j == r else t[j % k] for j in range(n)]))
                        if k == 2:
                            # only one word of the first kind
                            yield ('dep', h, words([root if j == r else t[j != (r + n // 2) % n] for j in range(n)]))
        else:
            _, n, i = block
            for s in shapes(n)[i:i + 20]:
                for t in itertools.product(self.direct_kinds(n), repeat=n):
                    yield ('tree', s, words(t))

    # --- the real stages

    def start(self, case):
        """(tokens, words, tree or sentence)."""
        from gb.nlp.sentence import Sentence
        from gb.knowledge.semantic_tree import Tree
        if case[0] == 'golden':
            heads, ws = GOLDEN[case[1]][0]
            toks = T.tokens(heads, ws)
            return toks, ws, Sentence(toks), heads
        if case[0] == 'dep':
            toks = T.tokens(case[1], case[2])
            return toks, case[2], Sentence(toks), case[1]
        ws = case[2]
        toks = T.tokens((0,) * len(ws), ws)
        tree = Tree()
        it = iter(toks)

        def make(s):
            if s == '.':
                return tree.create_leaf(next(it)).id
            return tree.create_node([make(x) for x in s]).id
        tree.root_id = make(case[1])
        return toks, ws, tree, None

    def stages(self):
        from gb.knowledge.stages.alpha import AlphaStage
        from gb.knowledge.stages.beta import BetaStage
        from gb.knowledge.stages.gamma import GammaStage
        from gb.knowledge.stages.delta import DeltaStage
        from gb.knowledge.stages.epsilon import EpsilonStage
        return [None, lambda x: AlphaStage().process_sentence(x), lambda x: BetaStage(None, x).process(),
                lambda x: GammaStage(x).process(), lambda x: DeltaStage(x).process(), lambda x: EpsilonStage(None, x).process()]

    def transform(self):
        import importlib
        names = [None, 'alpha', 'beta', 'gamma', 'delta', 'epsilon']
        return getattr(importlib.import_module('gb.knowledge.stages.' + names[self.stage]), 'transform', None)

    def run_case(self, case, rec):
        toks, ws, x, heads = self.start(case)
        index = {id(t): i for i, t in enumerate(toks)}
        st = self.stages()
        first = 1 if heads is not None else 2

        def snap(tree):
            try:
                return T.snapshot(tree, tree.root_id, index)
            except T.Broken as e:
                raise Mismatch(str(e))
        before = None
        try:
            for k in range(first, self.stage):
                x = st[k](x)
            if first < self.stage or heads is None:
                before = snap(x)
        except Exception:
            # for the properties of that stage
            rec.count('not_reached')
            return
        rec.count('evaluations')
        f = st[self.stage]
        if len(ws) < 3 or case[0] == 'golden':
            # the function of the module that does the same, where there is one
            f = self.transform() or f
        after = f(x)
        self.judge(case, heads, ws, before, after, snap, rec)
        if case[0] == 'golden' and self.stage < 5:
            if str(after) != GOLDEN[case[1]][1][self.stage - 1]:
                raise Mismatch('the documented example %d gives %s, should be %s' % (case[1], after, GOLDEN[case[1]][1][self.stage - 1]))

    def expect(self, ws, before, got, want, loose=False):
        f = T.loose if loose else T.canon
        if f(got) != f(want):
            raise Mismatch('%s gives %s, should be %s' % ('' if before is None else T.show(before, ws), T.show(got, ws),
                                                          T.show(want, ws)))


class K01(TreeCheck):
    prop = 'K01'
    stage = 1

    def judge(self, case, heads, ws, before, after, snap, rec):
        got = snap(after)
        if sorted(T.leaves(got)) != sorted(T.kept(heads, ws)):
            raise Mismatch('the words are %s, should be %s' % (sorted(T.leaves(got)), sorted(T.kept(heads, ws))))
        self.expect(ws, None, got, T.alpha(heads, ws))
        rec.seen(got)
        rec.sample(str(after))


class K02(TreeCheck):
    prop = 'K02'
    stage = 2

    def judge(self, case, heads, ws, before, after, snap, rec):
        got = snap(after)
        want = T.beta(before, ws)
        if got != want:
            self.expect(ws, before, got, want)
            if flags(got) != flags(want):
                raise Mismatch('%s is marked as %s, should be as %s' % (T.show(before, ws), got, want))
        todo = [after.root_id]
        while todo:
            e = after.get(todo.pop())
            if not e.namespace or not isinstance(e.namespace, str):
                raise Mismatch('%s has no namespace in %s' % (e, after))
            if e.is_node():
                todo += e.children_ids
        rec.seen(got)
        rec.sample(str(after))


def flags(x):
    return (x[1], tuple(flags(y) for y in x[2])) if isinstance(x, tuple) else None


class K03(TreeCheck):
    prop = 'K03'
    stage = 3

    def judge(self, case, heads, ws, before, after, snap, rec):
        got = snap(after)
        lost = [i for i in T.leaves(before) if i not in T.leaves(got)]
        if any(ws[i][1] != 'DET' or T.lemma_of(ws, i) not in T.ARTICLES for i in lost):
            raise Mismatch('%s gives %s, words are lost' % (T.show(before, ws), after))
        if len(T.leaves(got)) + len(lost) != len(T.leaves(before)):
            raise Mismatch('%s gives %s, words are repeated' % (T.show(before, ws), after))
        self.expect(ws, before, got, T.gamma(before, ws))
        rec.seen(got)
        rec.sample('%s -> %s' % (T.show(before, ws), after))


class K04(TreeCheck):
    prop = 'K04'
    stage = 4

    def judge(self, case, heads, ws, before, after, snap, rec):
        got = snap(after)
        if sorted(T.leaves(got)) != sorted(T.leaves(before)):
            raise Mismatch('%s gives %s, not with the same words' % (T.show(before, ws), after))
        want = T.delta(before, ws)
        if want == before:
            rec.count('unchanged')
        self.expect(ws, before, got, want, loose=True)
        rec.seen(got)
        if want != before:
            rec.sample('%s -> %s' % (T.show(before, ws), after))


class K05(TreeCheck):
    prop = 'K05'
    stage = 5
    assumptions = TreeCheck.assumptions + ['words have no white space, slashes or parentheses']

    def judge(self, case, heads, ws, before, after, snap, rec):
        import gb.hypergraph.edge as ed
        want = T.epsilon(before, ws, ['1'] * len(ws))
        if after != want:
            raise Mismatch('%s gives %s, should be %s' % (T.show(before, ws), after, want))

        def well(x):
            if isinstance(x, tuple):
                if len(x) < 2:
                    raise Mismatch('%s gives %s, with an edge of less than two elements' % (T.show(before, ws), after))
                for y in x:
                    well(y)
            elif not isinstance(x, str) or not x:
                raise Mismatch('%s gives %s, with a missing value' % (T.show(before, ws), after))
        well(after)
        if ed.str2edge(ed.edge2str(after)) != after:
            raise Mismatch('%s is read back as %s' % (after, ed.str2edge(ed.edge2str(after))))
        if isinstance(after, tuple) and (case[0] == 'golden' or len(ws) < 4):
            from mc.histories import new_hg, close
            hg = new_hg()
            try:
                hg.add([after])
                if not hg.exists(after) or any(after not in hg.star(v) for v in after):
                    raise Mismatch('%s is not there once stored' % (after,))
                rec.count('stored')
            finally:
                close(hg)
        rec.seen(after)
        rec.sample(after)


def fields(toks):
    """Everything that there is in tokens."""
    index = {id(t): i for i, t in enumerate(toks)}

    def value(v):
        if isinstance(v, list):
            return tuple(index.get(id(x), x) for x in v)
        return index.get(id(v), v)
    return [tuple((k, value(v)) for k, v in sorted(vars(t).items())) for t in toks]


class K06(TreeCheck):
    """More cases: ('text', indices): a text of those sentences. ('unknown', stages)."""
    prop = 'K06'
    stage = 6
    level = 'exploration'
    technique = 'exhaustive enumeration of dependency trees, and of sequences of sentences and stages, on the real code'
    NAMES = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')
    assumptions = ['the parser is replaced by one that gives the sentences that are enumerated']

    def direct_sizes(self):
        return []

    def pool(self):
        res = [g[0] for g in GOLDEN]
        res += [((0,), words([('ROOT', 'VERB', '')])), ((1, 1, 1), words([KINDS[0], ROOTS[0], KINDS[5]])),
                ((0, 0), words([ROOTS[1], KINDS[1]])),
                # white space before the words
                ((1, 1), (T.spec('', 'SPACE', '', ''), T.spec('ROOT', 'VERB', '')))]
        return res

    def blocks(self):
        n = len(self.pool())
        yield ('texts', ())
        for i in range(n):
            yield ('texts', (i,))
        yield ('stages', 0)
        yield ('many', 0)
        for b in super().blocks():
            yield b

    def cases(self, block):
        if block[0] == 'texts':
            n = len(self.pool())
            yield ('text', block[1])
            if block[1]:
                for k in (1, 2):
                    for rest in itertools.product(range(n), repeat=k):
                        yield ('text', block[1] + rest)
        elif block[0] == 'many':
            n = len(self.pool())
            for k in (4, 5, 8, 11, 17, 40, 130):
                for i in range(n):
                    yield ('text', tuple((i + j) % n for j in range(k)))
                    yield ('text', (i,) * (k - 1) + ((i + 1) % n,))
        elif block[0] == 'stages':
            for n in range(1, 6):
                yield ('prefix', n)
                for idx in itertools.product(range(len(self.pool())), repeat=2):
                    yield ('keep', n, idx)
                for at in range(n):
                    for bad in ('zeta', 'Alpha', '', 'alpha ', None, 'omega'):
                        yield ('unknown', self.NAMES[:at] + (bad,) + self.NAMES[at + 1:n])
            for rest in itertools.product(('beta', 'gamma', 'delta'), repeat=3):
                yield ('order', ('alpha',) + rest)
                yield ('order', ('alpha', 'beta') + rest[:2] + ('epsilon',))
        else:
            for c in super().cases(block):
                yield c

    def extract(self, x, heads, ws):
        from gb.nlp.sentence import Sentence
        toks = T.tokens(heads, ws)
        before = fields(toks)
        order = list(toks)
        s = Sentence(toks)
        res = x.read_sentence(s)
        if fields(order) != before or len(toks) != len(order) or any(a is not b for a, b in zip(toks, order)):
            raise Mismatch('the sentence changes: %s' % short(ws))
        outputs = list(x.outputs)
        if len(outputs) != len(x.stages) or any(not isinstance(o, str) for o in outputs):
            raise Mismatch('the outputs are %s' % short(outputs))
        if outputs[-1] != str(res):
            raise Mismatch('the last output is %s and the result is %s' % (outputs[-1], res))
        return res, outputs

    def run_case(self, case, rec):
        from gb.knowledge.extractor import Extractor
        rec.count('evaluations')
        if case[0] in ('dep', 'golden'):
            heads, ws = case[1:] if case[0] == 'dep' else GOLDEN[case[1]][0]
            shared = getattr(self, 'shared', None)
            if shared is None:
                shared = self.shared = Extractor(None)
            one = self.extract(shared, heads, ws)
            new = self.extract(Extractor(None), heads, ws)
            if one != new:
                raise Mismatch('%s gives %s with an extractor that was used, and %s with a new one' % (short(ws), one, new))
            if not isinstance(one[0], (str, tuple)):
                raise Mismatch('%s gives %s' % (short(ws), one[0]))
            if len(ws) <= 3:
                again = self.extract(shared, heads, ws)
                if again != one:
                    raise Mismatch('%s gives %s, and then %s' % (short(ws), one, again))
                noisy = Extractor(None)
                noisy.debug = True
                with contextlib.redirect_stdout(io.StringIO()):
                    loud = self.extract(noisy, heads, ws)
                if loud != one:
                    raise Mismatch('%s gives %s, and %s with debug' % (short(ws), one, loud))
            if case[0] == 'golden' and tuple(one[1][:4]) != GOLDEN[case[1]][1]:
                raise Mismatch('the documented example %d gives %s' % (case[1], one[1]))
            rec.seen(one[0])
            rec.sample(one[1])
        elif case[0] == 'text':
            import gb.knowledge.extractor as ex
            pool = self.pool()
            calls = []

            class Fake:
                def __init__(self):
                    calls.append('new')

                def parse_text(self, text):
                    calls.append(text)
                    return [T.tokens(*pool[int(i)]) for i in text.split()]
            old, ex.Parser = ex.Parser, Fake
            try:
                x = Extractor(None)
                text = ' '.join(str(i) for i in case[1])
                got = x.read_text(text)
                want = [self.extract(Extractor(None), *pool[i])[0] for i in case[1]]
                if got != want:
                    raise Mismatch('a text of sentences %s gives %s, should be %s' % (case[1], got, want))
                if calls[1:] != [text]:
                    raise Mismatch('the parser is given %s, should be %s' % (calls, text))
                if x.read_text(text) != want:
                    raise Mismatch('a text of sentences %s gives something else the second time' % (case[1],))
            finally:
                ex.Parser = old
            rec.seen(tuple(want))
        elif case[0] == 'prefix':
            full = [self.extract(Extractor(None), h, w)[1] for h, w in self.pool()]
            for (h, w), f in zip(self.pool(), full):
                got = self.extract(Extractor(None, self.NAMES[:case[1]]), h, w)[1]
                if got != f[:case[1]]:
                    raise Mismatch('the first %d stages give %s, should be %s' % (case[1], got, f[:case[1]]))
        elif case[0] == 'keep':
            # what was given stays as it is, whatever the same extractor does next
            x = Extractor(None, self.NAMES[:case[1]])
            held = []
            for i in case[2] + case[2][:1]:
                res, outputs = self.extract(x, *self.pool()[i])
                held.append((i, res, str(res), x.outputs, outputs))
            for i, res, text, outputs, before in held:
                want = self.extract(Extractor(None, self.NAMES[:case[1]]), *self.pool()[i])
                if str(res) != text or text != str(want[0]) or outputs != before or before != want[1]:
                    raise Mismatch('with the first %d stages on sentences %s: sentence %d gives %s and then %s, should be %s' % (
                        case[1], case[2], i, text, res, want[0]))
            rec.seen((case[1], tuple(t for _, _, t, _, _ in held)))
        elif case[0] == 'order':
            for h, w in self.pool():
                got = self.extract(Extractor(None, case[1]), h, w)[1]
                x = T.alpha(h, w)
                for name, o in zip(case[1], got):
                    if name in ('beta', 'gamma'):
                        x = T.beta(x, w) if name == 'beta' else T.gamma(x, w)
                    if name in ('delta', 'epsilon'):
                        # the fourth stage can drop nesting
                        break
                    if o != T.show(x, w):
                        raise Mismatch('stages %s give %s, the stage %s should give %s' % (case[1], got, name, T.show(x, w)))
        else:
            for h, w in self.pool():
                try:
                    res = self.extract(Extractor(None, case[1]), h, w)
                except Mismatch:
                    raise
                except RuntimeError:
                    rec.count('refused')
                    continue
                raise Mismatch('stages %s give %s, should be refused' % (case[1], res))


class K07(Check):
    """Cases: (start, ops): operations on trees from a starting tree."""
    prop = 'K07'
    level = 'model_checking'
    technique = 'explicit-state exploration of sequences of operations on the real trees against a functional model'
    rule = 'every sequence of operations up to a depth, on every element, from each starting tree'
    assumptions = ['an element is put in one place only', 'elements are not nested in themselves']
    timeout = 60

    # values: a word is its number, a group is ('g', compound, elements)

    STARTS = [0, ('g', False, (0, 1)), ('g', False, (('g', False, (0, 1)), 2)), ('g', False, (0, ('g', False, (1, 2)))),
              ('g', False, (('g', False, (('g', False, (0, 1)),)),)), ('g', False, (('g', True, (0, 1)), 2)),
              ('g', True, (0, ('g', True, (1, 2))))]

    def depth(self):
        return 4 if self.thorough else 3

    def describe(self):
        return {'bounds': {'starting_trees': len(self.STARTS), 'depth': self.depth(), 'elements': self.limit()}}

    def limit(self):
        return 9

    # --- model: forest of values; an element is a path from one of the roots

    def paths(self, x, at=()):
        res = [at]
        if isinstance(x, tuple):
            for i, y in enumerate(x[2]):
                res += self.paths(y, at + (i,))
        return res

    def value(self, x, path):
        for i in path:
            x = x[2][i]
        return x

    def put(self, x, path, y):
        if not path:
            return y
        i = path[0]
        return ('g', x[1], x[2][:i] + (self.put(x[2][i], path[1:], y),) + x[2][i + 1:])

    def ops(self, forest):
        for r, root in enumerate(forest):
            for p in self.paths(root):
                v = self.value(root, p)
                for what in ('child', 'left', 'right', 'clone'):
                    yield (what, r, p)
                if not isinstance(v, tuple) or not v[1]:
                    yield ('nest', r, p)
                    yield ('nest2', r, p)
                    yield ('nestgroup', r, p)
                    yield ('clonenest', r, p)
                if isinstance(v, tuple):
                    yield ('flatten', r, p)
                    yield ('compound', r, p, not v[1])
            yield ('clean', r)

    def size(self, forest):
        return sum(len(self.paths(x)) for x in forest)

    def new(self, forest):
        ls = [i for x in forest for i in T.leaves(x)]
        return max(ls) + 1

    def apply(self, forest, op):
        what, r = op[:2]
        root = forest[r]
        n = self.new(forest)
        if what == 'clean':
            return forest[:r] + (T.clean(root),) + forest[r + 1:]
        v = self.value(root, op[2])
        if what == 'clone':
            return forest + (v,)
        elems = v[2] if isinstance(v, tuple) else (v,)
        flag = isinstance(v, tuple) and v[1]
        if what == 'child':
            y = ('g', flag, elems + (n,))
        elif what in ('left', 'right'):
            first = elems[0]
            inner = first[2] if isinstance(first, tuple) and not first[1] else (first,)
            y = ('g', flag, (('g', False, (n,) + inner if what == 'left' else inner + (n,)),) + elems[1:])
        elif what in ('nest', 'nest2', 'nestgroup', 'clonenest'):
            inner = elems[0] if len(elems) == 1 else ('g', False, elems)
            if what == 'nest2':
                # the first one is outermost
                y = ('g', False, (n, ('g', False, (n + 1, inner))))
            elif what in ('nest', 'clonenest'):
                y = ('g', False, (n, inner))
            else:
                y = ('g', False, (n, inner, n + 1))
        elif what == 'flatten':
            y = self.flat(v)
        elif what == 'compound':
            y = self.mark(v, op[3])
        res = forest[:r] + (self.put(root, op[2], y),) + forest[r + 1:]
        return res + (v,) if what == 'clonenest' else res

    def flat(self, v):
        if not isinstance(v, tuple):
            return v
        elems = ()
        for y in v[2]:
            z = self.flat(y)
            elems += (z,) if not isinstance(z, tuple) or z[1] else z[2]
        return ('g', v[1], elems)

    def mark(self, v, flag):
        if not isinstance(v, tuple):
            return v
        return ('g', flag, tuple(self.mark(y, flag) for y in v[2]))

    # --- implementation

    def build(self, start):
        from gb.knowledge.semantic_tree import Tree
        tree = Tree()
        toks = []

        def leaf():
            from gb.nlp.nlp_token import Token
            i = len(toks)
            # some of the words are unusual
            t = Token(['w0', '_', 'W2', '', '(w4)', 'w 5'][i] if i < 6 else 'w%d' % i)
            t.pos, t.dep, t.entity_type = ['VERB', 'NOUN', 'ADP'][i % 3], ['aux', 'pobj'][i % 2], ''
            toks.append(t)
            return tree.create_leaf(t).id

        def make(v):
            if not isinstance(v, tuple):
                return leaf()
            node = tree.create_node([make(y) for y in v[2]])
            if v[1]:
                node.compound = True
            return node.id
        root = make(start)
        tree.root_id = root
        return tree, toks, [root], leaf

    def element(self, tree, root, path):
        e = tree.get(root)
        for i in path:
            e = tree.get(e.children_ids[i])
        return e

    def perform(self, ctx, op):
        from gb.knowledge.semantic_tree import Position
        tree, toks, roots, leaf = ctx
        what, r = op[:2]
        if what == 'clean':
            if roots[r] == tree.root_id:
                tree.remove_redundant_nesting()
            else:
                tree.get(roots[r]).remove_redundant_nesting()
            return
        e = self.element(tree, roots[r], op[2])
        eid = e.id
        if what == 'clone':
            roots.append(e.clone().id if not op[2] else tree.clone_id(eid))
        elif what == 'child':
            e.add_child(leaf())
        elif what in ('left', 'right'):
            e.add_to_first_child(leaf(), Position.LEFT if what == 'left' else Position.RIGHT)
        elif what == 'flatten':
            e.flatten()
        elif what == 'compound':
            e.compound = op[3]
        else:
            if what == 'clonenest':
                # nested between the clone and the end
                clone = e.clone().id
                roots.append(clone)
            wrappers = [leaf()] if what in ('nest', 'clonenest') else [leaf(), leaf()] if what == 'nest2' else \
                [tree.create_node([leaf(), leaf()]).id]
            for w in wrappers:
                tree.get(eid).nest(w)
                tree.get(eid).new_layer()
            if what == 'clonenest':
                tree.get(clone).apply_layers()
            tree.get(eid).apply_layers()
            if what == 'clonenest':
                # there are no layers left
                tree.get(clone).apply_layers()
                tree.get(eid).apply_layers()

    def check(self, ctx, forest, where):
        tree, toks, roots, _ = ctx
        index = {id(t): i for i, t in enumerate(toks)}
        if len(roots) != len(forest):
            raise Mismatch('%s: %d roots, should be %d' % (where, len(roots), len(forest)))
        names = tuple(T.spec('', '', '', t.word) for t in toks)
        owner = {}
        for r, (rid, want) in enumerate(zip(roots, forest)):
            try:
                got = T.snapshot(tree, rid, index)
            except T.Broken as e:
                raise Mismatch('%s: %s' % (where, e))
            if got != want:
                raise Mismatch('%s: tree %d is %s, should be %s' % (where, r, show(got), show(want)))
            todo = [(rid, want)]
            while todo:
                eid, v = todo.pop()
                e = tree.get(eid)
                if tree.get(e.id) is not e:
                    raise Mismatch('%s: element %s is not found by its identifier' % (where, e))
                if id(e) in owner and owner[id(e)] != eid:
                    raise Mismatch('%s: element %s is in two places' % (where, e))
                if id(e) in owner:
                    raise Mismatch('%s: element %s is shared' % (where, e))
                owner[id(e)] = eid
                if [index[id(x.token)] for x in e.flat_leafs()] != T.leaves(v):
                    raise Mismatch('%s: the leaves of %s are %s' % (where, show(v), e.flat_leafs()))
                if e.arity() != (1 if not isinstance(v, tuple) or v[1] else len(v[2])):
                    raise Mismatch('%s: the arity of %s is %s' % (where, show(v), e.arity()))
                if e.is_terminal() != (not isinstance(v, tuple) or v[1]) or e.is_not_terminal() == e.is_terminal():
                    raise Mismatch('%s: %s is terminal: %s' % (where, show(v), e.is_terminal()))
                for pos in ('VERB', 'NOUN', 'ADP', 'X', 'VER', 'verb', ''):
                    if bool(e.has_pos(pos)) != any(toks[i].pos == pos for i in T.leaves(v)):
                        raise Mismatch('%s: %s has part of speech %s: %s' % (where, show(v), pos, e.has_pos(pos)))
                for dep in ('aux', 'pobj', 'x', 'obj', 'au', ''):
                    if bool(e.has_dep(dep)) != any(toks[i].dep == dep for i in T.leaves(v)):
                        raise Mismatch('%s: %s has dependency %s: %s' % (where, show(v), dep, e.has_dep(dep)))
                if isinstance(v, tuple):
                    todo += list(zip(e.children_ids, v[2]))
            if str(tree.get(rid)) != T.show(want, names):
                raise Mismatch('%s: tree %d is written as %s, should be %s' % (where, r, tree.get(rid), T.show(want, names)))
        if str(tree) != T.show(forest[0], names):
            raise Mismatch('%s: the tree is written as %s, should be %s' % (where, tree, T.show(forest[0], names)))
        for i, j in itertools.combinations(range(len(roots)), 2):
            same = tree.get(roots[i]) == tree.get(roots[j])
            if same != (bare(forest[i]) == bare(forest[j])):
                raise Mismatch('%s: equality of %s and %s is %s' % (where, show(forest[i]), show(forest[j]), same))

    def blocks(self):
        for i in range(len(self.STARTS)):
            n = len(list(self.ops((self.STARTS[i],))))
            for j in range(n):
                yield (i, j)

    def block(self, block, rec):
        i, j = block
        start = (self.STARTS[i],)
        first = list(self.ops(start))[j]
        if not self.attempt((i, ()), rec):
            return

        def extend(seq, forest):
            if not self.attempt((i, tuple(seq)), rec):
                return False
            if len(seq) >= self.depth():
                return True
            for op in self.ops(forest):
                nxt = self.apply(forest, op)
                if self.size(nxt) <= self.limit() and len(nxt) <= 3:
                    if not extend(seq + [op], nxt):
                        return False
            return True
        extend([first], self.apply(start, first))

    def run_case(self, case, rec):
        i, seq = case
        forest = (self.STARTS[i],)
        ctx = self.build(self.STARTS[i])
        for op in seq:
            self.perform(ctx, op)
            forest = self.apply(forest, op)
        rec.count('transitions')
        rec.count('traces_validated_against_impl')
        rec.state(forest)
        self.check(ctx, forest, 'from %s after %s' % (show(self.STARTS[i]), short(seq)))
        rec.sample((show(self.STARTS[i]), seq))


def show(v):
    return T.show(v, tuple(T.spec('', '', '', 'w%d' % i) for i in range(60)))


def bare(v):
    """Equality of trees does not depend on what is a compound."""
    return tuple(bare(y) for y in v[2]) if isinstance(v, tuple) else v
