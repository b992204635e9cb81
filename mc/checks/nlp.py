"""L01-L03: tokens of parsed texts."""
import contextlib
import io
import itertools

from mc.core import Check, Mismatch, short
import mc.trees as T
import mc.fakes as fakes

FIELDS = ('word', 'lemma', 'shape', 'pos', 'dep', 'entity_type')


class L01(Check):
    """Cases: texts parsed one after another by the same parser; a text is a tuple of sentences (heads, kinds of words)."""
    prop = 'L01'
    level = 'exploration'
    technique = 'exhaustive enumeration of dependency trees and texts, as documents of spaCy, on the real parser'
    rule = ('every sentence up to a number of words, with every dependency tree; every text up to three sentences, some of up to 130; every pair of '
            'texts with the same parser; words of every kind at each place; words with characters of all Unicode')
    assumptions = ['the documents are made with the real spaCy library, without a trained model']
    timeout = 60

    # text, lemma, part of speech, dependency, entity
    WORDS = [('The', 'the', 'DET', 'det', ''), ('USA', 'USA', 'PROPN', 'nsubj', 'GPE'), ('Ran', 'run', 'VERB', 'xcomp', ''),
             ('.', '.', 'PUNCT', 'punct', ''), ('\n', '\n', 'SPACE', '', ''), ('\u00c9t\u00e9', '\u00e9t\u00e9', 'NOUN', 'pobj', 'DATE'),
             ('1st', '1st', 'ADJ', 'amod', ''), ("N't", 'not', 'PART', 'neg', ''), ('  ', '  ', 'SPACE', 'dep', ''),
             ('\u0130x', 'ix', 'NOUN', 'dobj', 'PERSON'), ('the', 'the', 'DET', 'det', ''), ('root', 'root', 'NOUN', 'ROOT', '')]

    def setup(self):
        fakes.install(spacy=True)
        import spacy
        self.vocab = spacy.blank('en').vocab
        self.texts = {}
        fakes.Loader.make = self.make

    def describe(self):
        return {'bounds': {'words_of_a_sentence': self.size(), 'words_of_a_sentence_of_one_kind': self.long(), 'kinds_of_words': len(self.WORDS)}}

    def size(self):
        return 5 if self.thorough else 4

    def long(self):
        return 7 if self.thorough else 6

    def doc(self, text):
        from spacy.tokens import Doc
        words, heads, deps, pos, lemmas, ents = [], [], [], [], [], []
        for hs, ks in text:
            base = len(words)
            for i, (h, k) in enumerate(zip(hs, ks)):
                w = self.kind(k)
                words.append(w[0])
                heads.append(base + h)
                deps.append('ROOT' if h == i else w[3])
                pos.append(w[2])
                lemmas.append(w[1])
                ents.append('B-' + w[4] if w[4] else '')
        doc = Doc(self.vocab, words=words, heads=heads, deps=deps, pos=pos, lemmas=lemmas, ents=ents)
        for i in range(1, len(doc), 2):
            # as with the exceptions of a language (e.g. n't is not)
            doc[i].norm_ = 'norm%d' % i
        return doc

    def make(self, text):
        return self.texts[text]

    def kind(self, k):
        """A kind of word, or another word."""
        return (k, k + 'L', 'NOUN', 'dobj', '') if isinstance(k, str) else self.WORDS[k]

    def short_texts(self):
        res = [(), (((0,), (2,)),), (((1, 1), (0, 2)),), (((0, 0, 1), (2, 5, 3)), ((0,), (4,)))]
        res += [(((1, 1, 1), (1, 2, k)), ((2, 2, 2), (0, 1, 2))) for k in (3, 4)]
        return res

    def blocks(self):
        yield ('texts', 0)
        for n in range(1, self.size() + 1):
            for hs in T.heads_of(n):
                yield ('sentence', hs)
        for i in range(9):
            yield ('several', i)
        for n in range(1, self.long() + 1):
            for i in range(n):
                yield ('long', n, i)
        for n in (12, 60, 150):
            yield ('longer', n)
        for n in (4, 5, 8, 11, 17, 40, 130):
            yield ('many', n)
        for i in range(0, 0x110000, 0x2000):
            yield ('chars', i)

    def cases(self, block):
        if block[0] == 'chars':
            # words with the characters that have upper and lower case, and some others
            cs = [chr(i) for i in range(block[1], block[1] + 0x2000) if not 0xd800 <= i < 0xe000]
            cs = [c for c in cs if c != c.lower() or c != c.upper() or c != c.casefold() or c.isspace() or ord(c) % 64 == 0]
            for i in range(0, len(cs), 4):
                ws = ['a%sb' % c for c in cs[i:i + 4]] + ['%sA' % c for c in cs[i:i + 4]] + cs[i:i + 4] + ['A' + c for c in cs[i:i + 4]]
                yield ((((0,) * len(ws), tuple(ws)),),)
        elif block[0] == 'many':
            # texts with many sentences, and many texts
            pool = [((0,), (2,)), ((1, 1), (0, 2)), ((0, 0, 1), (2, 5, 3)), ((2, 2, 2), (0, 1, 2)), ((1, 1, 1, 2), (5, 8, 10, 3))]
            for i in range(len(pool)):
                for k in (1, 2, 5):
                    ss = tuple(pool[(i + j) % k if j % 7 else i] for j in range(block[1]))
                    yield (ss,)
                    yield tuple((x,) for x in ss)
                    yield (ss[:2], ss, ss[:3])
        elif block[0] == 'texts':
            ts = self.short_texts()
            for k in (1, 2, 3):
                for t in itertools.product(ts, repeat=k):
                    yield t
        elif block[0] == 'sentence':
            hs = block[1]
            n = len(hs)
            kinds = range(len(self.WORDS))
            if n >= 4:
                kinds = (0, 1, 2, 3, 8) if n == 4 else (1, 2, 8)
            for ks in itertools.product(kinds, repeat=n):
                yield (((hs, ks),),)
        elif block[0] == 'longer':
            for hs in T.long_heads(block[1]):
                for ks in ((0,), (1, 2), (0, 5, 8), (2, 3, 10, 0)):
                    s = (hs, (ks * len(hs))[:len(hs)])
                    yield ((s,),)
                    yield ((((0,), (2,)), s, s),)
                    yield ((s,), (s,))
        elif block[0] == 'long':
            for hs in T.heads_of(block[1]):
                if hs[block[2]] == block[2]:
                    for k in (1, 11):
                        yield (((hs, (k,) * len(hs)),),)
        else:
            trees = [hs for n in (1, 2, 3) for hs in T.heads_of(n) if T.projective(hs)]
            ks = (1, 2, 3)
            for t in trees[block[1]::9]:
                for a in trees:
                    yield (((t, ks[:len(t)]), (a, (0, 5, 8)[:len(a)])),)
                    for b in trees:
                        yield (((t, ks[:len(t)]), (a, (0, 5, 8)[:len(a)]), (b, (10, 7, 6)[:len(b)])),)

    def run_case(self, case, rec):
        from gb.nlp.parser import Parser
        parser = Parser()
        held = []
        for n, text in enumerate(case):
            name = 'Text %d' % n
            self.texts[name] = self.doc(text)
            got = parser.parse_text(name)
            held.append((text, got))
            rec.count('evaluations')
        # what was given before does not change
        for text, got in held:
            self.judge(text, got)
        ids = [id(t) for _, got in held for s in got for t in s]
        if len(ids) != len(set(ids)):
            raise Mismatch('%s: the same token for two words' % short(case))
        rec.seen(case)
        rec.sample([[[(t.word, t.dep) for t in s] for s in got] for _, got in held])

    def judge(self, text, got):
        if not isinstance(got, list) or [len(s) for s in got] != [len(hs) for hs, _ in text]:
            raise Mismatch('%s is parsed as %s' % (short(text), got))
        for (hs, ks), sent in zip(text, got):
            for i, t in enumerate(sent):
                w = self.kind(ks[i])
                want = (w[0].lower().strip(), w[1], self.vocab[w[0]].shape_, w[2], 'ROOT' if hs[i] == i else w[3], w[4])
                have = tuple(getattr(t, f) for f in FIELDS)
                if have != want:
                    raise Mismatch('%s: word %d is %s, should be %s' % (short(text), i, have, want))
                for side, left in (('left', True), ('right', False)):
                    cs = getattr(t, side + '_children')
                    ws = [sent[j] for j in T.kids(hs, i, left)]
                    if len(cs) != len(ws) or any(a is not b for a, b in zip(cs, ws)):
                        raise Mismatch('%s: the %s children of word %d are %s, should be %s' % (short(text), side, i, cs, ws))
                parent = None if hs[i] == i else sent[hs[i]]
                if t.parent is not parent:
                    raise Mismatch('%s: the parent of word %d is %s, should be %s' % (short(text), i, t.parent, parent))


class L02(Check):
    """Cases: (heads, kinds): a sentence."""
    prop = 'L02'
    level = 'exploration'
    technique = 'exhaustive enumeration of dependency trees on the real code, against the order of the tree'
    rule = 'every dependency tree up to a number of words, with every choice of kinds of words'
    assumptions = []
    timeout = 60

    KINDS = [('Word', 'NOUN', 'pobj', False), ('.', 'PUNCT', 'punct', False), (' \n', 'SPACE', '', False), ('sep', 'NOUN', 'dep', True),
             ('x', None, None, False), ('.', 'SYM', 'punct', False), ('.', 'PUNCT', 'punct', True),
             ('', 'X', 'dep', False), ('a  b', 'NOUN', 'pobj', False)]

    def describe(self):
        return {'bounds': {'words': self.size(), 'kinds': [len(self.kinds(n)) for n in range(1, self.size() + 1)]}}

    def size(self):
        return 6 if self.thorough else 5

    def kinds(self, n):
        return range({1: 9, 2: 9, 3: 9, 4: 5, 5: 4 if self.thorough else 3, 6: 2}[n])

    def blocks(self):
        for n in range(1, self.size() + 1):
            for hs in T.heads_of(n):
                yield hs
        for n in (12, 60, 150):
            yield ('longer', n)
        yield 'roots'

    def cases(self, block):
        if block == 'roots':
            for n in range(0, 4):
                for deps in itertools.product(('ROOT', 'root', '', None, 'dobj'), repeat=n):
                    yield ('roots', deps)
            return
        if block[0] == 'longer':
            for hs in T.long_heads(block[1]):
                for ks in itertools.product(range(9), repeat=2):
                    yield (hs, (ks * len(hs))[:len(hs)])
            return
        for ks in itertools.product(self.kinds(len(block)), repeat=len(block)):
            yield (block, ks)

    def run_case(self, case, rec):
        from gb.nlp.nlp_token import Token
        from gb.nlp.sentence import Sentence
        rec.count('evaluations')
        if case[0] == 'roots':
            toks = []
            for i, d in enumerate(case[1]):
                t = Token(' W%d\n' % i if d else ' ' if d is None else '')
                t.dep, t.pos, t.left_children, t.right_children = d, 'NOUN', [], []
                toks.append(t)
            s = Sentence(toks)
            want = [t for t in toks if t.dep == 'ROOT']
            if s.root() is not (want[0] if want else None):
                raise Mismatch('the root of %s is %s' % (case[1], s.root()))
            if str(s) != ' '.join('W%d' % i if d else '' for i, d in enumerate(case[1])):
                raise Mismatch('the sentence is %r' % str(s))
            return
        hs, ks = case
        toks = T.tokens(hs, tuple(T.spec('', '') for _ in hs))
        for i, (t, k) in enumerate(zip(toks, ks)):
            w = self.KINDS[k]
            t.word, t.pos, t.dep, t.separator = w[0] + (str(i) if w[0].isalpha() else ''), w[1], w[2], w[3]

        def order(i):
            res = []
            for j in T.kids(hs, i, True):
                res += order(j)
            res.append(i)
            for j in T.kids(hs, i, False):
                res += order(j)
            return res
        index = {id(t): i for i, t in enumerate(toks)}
        for i, t in enumerate(toks):
            want = order(i)
            got = [index[id(x)] for x in t.to_list()]
            if got != want:
                raise Mismatch('%s: the tokens under %d are %s, should be %s' % (short(case), i, got, want))
            if len(got) != len(set(got)):
                raise Mismatch('%s: the tokens under %d are %s, one is repeated' % (short(case), i, got))
            if hs[i] == i and T.projective(hs) and got != list(range(len(hs))):
                raise Mismatch('%s: the tokens are %s' % (short(case), got))
            kept = [j for j in want if not toks[j].separator and toks[j].pos not in ('PUNCT', 'SPACE')]
            got = [index[id(x)] for x in t.to_word_token_list()]
            if got != kept:
                raise Mismatch('%s: the words under %d are %s, should be %s' % (short(case), i, got, kept))
            if t.chunk_str() != ' '.join(toks[j].word for j in kept):
                raise Mismatch('%s: the text under %d is %r' % (short(case), i, t.chunk_str()))
        for i, (t, k) in enumerate(zip(toks, ks)):
            kids = [[index[id(x)] for x in cs] for cs in (t.left_children, t.right_children)]
            if kids != [T.kids(hs, i, True), T.kids(hs, i, False)]:
                raise Mismatch('%s: asking changes the children of %d' % (short(case), i))
        rec.seen(case)
        rec.sample([t.word for t in toks[T.root_of(hs)].to_list()])


class L03(Check):
    """Cases: (heads, kinds) or ('deps', dependencies): a sentence that is drawn."""
    prop = 'L03'
    level = 'exploration'
    technique = 'exhaustive enumeration of dependency trees on the real code, the drawing read back as a tree'
    rule = ('every dependency tree up to a number of words, with every choice of kinds of words, several of which can be told apart '
            'only by their place; sentences with any number of roots')
    assumptions = ['the words have no line breaks inside of them']
    timeout = 60

    KINDS = [(',', 'PUNCT', 'punct', ''), ('Word', 'NOUN', 'pobj', 'ORG'), ('', 'SPACE', '', ''), ('[L]x', 'X', 'dep', ''),
             (' +-- ', 'SYM', None, None), ('w\n', 'NOUN', 'pobj', 'ORG'), ('{a} |', 'NUM', 'nummod', ''),
             ('Long word ' * 30 + '!', 'NOUN', 'pobj', 'ORG')]

    def describe(self):
        return {'bounds': {'words': self.size(), 'kinds': [self.kinds(n) for n in range(1, self.size() + 1)], 'words_of_one_kind': self.long()}}

    def size(self):
        return 6 if self.thorough else 5

    def long(self):
        return 7 if self.thorough else 6

    def kinds(self, n):
        return {1: 8, 2: 8, 3: 8, 4: 4, 5: 3 if self.thorough else 2, 6: 2}[n]

    def blocks(self):
        for n in range(1, self.size() + 1):
            for hs in T.heads_of(n):
                yield hs
        yield ('same', self.long())
        yield ('deps', 0)
        yield ('wide', 0)

    def cases(self, block):
        if block[0] == 'same':
            for hs in T.heads_of(block[1]):
                yield (hs, (0,) * len(hs))
        elif block[0] == 'deps':
            for n in range(0, 4):
                for deps in itertools.product(('ROOT', 'root', '', None, 'dobj'), repeat=n):
                    yield ('deps', deps)
        elif block[0] == 'wide':
            for n in (12, 60, 150):
                for hs in T.long_heads(n):
                    for k in (0, 1, 5):
                        yield (hs, (k,) * n)
                    yield (hs, ((0, 1, 5, 6) * n)[:n])
        else:
            for ks in itertools.product(range(self.kinds(len(block))), repeat=len(block)):
                yield (block, ks)

    def drawn(self, sentence):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            sentence.print_tree()
        return [x for x in out.getvalue().split('\n') if x.strip()]

    def run_case(self, case, rec):
        from gb.nlp.nlp_token import Token
        from gb.nlp.sentence import Sentence
        rec.count('evaluations')
        if case[0] == 'deps':
            toks = []
            for i, d in enumerate(case[1]):
                t = Token('w%d' % i)
                t.dep, t.pos, t.left_children, t.right_children = d, 'NOUN', [], []
                toks.append(t)
            lines = self.drawn(Sentence(toks))
            roots = [t for t in toks if t.dep == 'ROOT']
            if not roots:
                if any('w%d' % i in x for x in lines for i in range(len(toks))):
                    raise Mismatch('a sentence without root (%s) is drawn as %s' % (case[1], lines))
            elif len(lines) != 1 or str(roots[0]) not in lines[0]:
                raise Mismatch('a sentence with the only token %s under its first root is drawn as %s' % (roots[0], lines))
            return
        hs, ks = case
        toks = T.tokens(hs, tuple(T.spec('', '') for _ in hs))
        for i, (t, k) in enumerate(zip(toks, ks)):
            w = self.KINDS[k]
            t.word, t.pos, t.dep, t.entity_type = w
            if hs[i] == i:
                t.dep = 'ROOT'
        before = [dict(vars(t), left_children=list(t.left_children), right_children=list(t.right_children)) for t in toks]

        want = []

        def walk(i, depth, mark):
            want.append((depth, mark, str(toks[i])))
            for j in T.kids(hs, i, True):
                walk(j, depth + 1, '[L]')
            for j in T.kids(hs, i, False):
                walk(j, depth + 1, '[R]')
        walk(T.root_of(hs), 0, '[*]')
        s = Sentence(toks)
        for _ in (1, 2):
            got = self.read(self.drawn(s))
            if got != want:
                raise Mismatch('%s: drawn as %s, should be %s' % (short(case), got, want))
        if any(vars(t) != b for t, b in zip(toks, before)):
            raise Mismatch('%s: drawing changes the tokens' % short(case))
        rec.seen(case)
        rec.sample(want)

    def read(self, lines):
        """The drawing as a list of (depth, mark, text): only the indentation counts, not how the branches are drawn."""
        res, places = [], []
        for line in lines:
            at = line.find('[')
            if at < 0:
                return lines
            while places and places[-1] >= at:
                places.pop()
            res.append((len(places), line[at:at + 3], line[at + 3:].rstrip()))
            places.append(at)
        return res
