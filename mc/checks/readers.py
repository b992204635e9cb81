"""R01, W01: what is read from WordNet and from dumps of Wikipedia."""
import contextlib
import importlib.util
import io
import itertools
import os
import subprocess
import sys
import tempfile

import mc.fakes as fakes
from mc.core import Check, Mismatch, REPO, short
from mc.hgmodel import Model, apply, key, keys
from mc.histories import new_hg, close
from mc.observe import differs, model_snapshot, snapshot, universe

N = None
SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') else tempfile.gettempdir()

POS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}
RELATION = {'hypernyms': 'hypernym', 'instance_hypernyms': 'instance_hypernym', 'member_meronyms': 'member_meronym',
            'attributes': 'attribute', 'entailments': 'entailment', 'causes': 'cause', 'also_sees': 'also_see',
            'verb_groups': 'verb_group', 'similar_tos': 'similar_to', 'antonyms': 'antonym', 'pertainyms': 'pertainym',
            'derivationally_related_forms': 'derivationally_related_form'}
SYNSET, LEMMA = fakes.SYNSET_RELATIONS, fakes.LEMMA_RELATIONS


class R01(Check):
    """A lexicon is (synsets, relations of synsets, relations of lemmas): a synset is (name, part of speech, words); a relation of
    synsets is (relation, from, to), with their positions; a relation of lemmas is (relation, (synset, lemma), (synset, lemma)).
    Cases:
    ('lexicon', lexicon): read in an empty hypergraph.
    ('again', lexicon): read twice, in a hypergraph with something else.
    ('size', n): a lexicon with n relations.
    ('kind', relation): a relation that is not read."""

    prop = 'R01'
    technique = 'exhaustive enumeration of small lexicons, and of sizes around the limit of the buffer, read by the real code'
    rule = 'every lexicon over two or three synsets with every relation, every pair of relations and every direction; every part ' \
        'of speech; every number of beliefs around each multiple of the limit of the buffer; names of words of every kind'
    assumptions = ['the synsets and lemmas are stand-ins with the interface of the ones of NLTK']
    WORDS = ['dog', 'Dog', 'domestic_dog', "dog's", '9-11', 'o.k.', 'A-1', '1984', '3.14', 'caf\u00e9', 'x', '20', '-', "'s_gravenhage", 'a/c', 'St._John', 'a/', '//b',
             '~x', 'f(x)', '%s', 'STRA\u00dfE']

    def setup(self):
        fakes.install(wordnet=True)
        import gb.readers.wordnet  # noqa

    def blocks(self):
        yield ('pos',)
        for w in self.WORDS:
            yield ('words', w)
        for r in fakes.SYNSET_RELATIONS + fakes.OTHER_RELATIONS:
            yield ('synsets', r)
        for r in fakes.LEMMA_RELATIONS:
            yield ('lemmas', r)
        for r in SYNSET:
            yield ('mixed', r)
        for r in self.all_pairs():
            yield ('network', r)
        for n in self.sizes():
            yield ('size', n)
        yield ('empty',)

    def all_pairs(self):
        return list(itertools.product(range(3), repeat=2))

    def sizes(self):
        # a belief is two additions to a buffer with a limit of 1000
        around = [1000] + ([2000, 3000] if self.thorough else [])
        res = [k // 2 + d for k in around for d in (-2, -1, 0, 1, 2)] + [1000 + d for d in (-1, 0, 1)] + [4100, 333, 1, 2, 3]
        return sorted(set(res), reverse=True)

    BASE = (('dog.n.01', 'n', ('dog', 'domestic_dog')), ('run.v.02', 'v', ('run',)), ('big.s.03', 's', ('big', 'large', 'dog')))

    def positions(self, synsets):
        return [(i, j) for i, s in enumerate(synsets) for j in range(len(s[2]))]

    def cases(self, block):
        kind = block[0]
        base = self.BASE
        if kind == 'pos':
            for p in itertools.product(POS, repeat=3 if self.thorough else 2):
                for ws in itertools.product((('dog',), ('dog', 'cat'), ('cat', 'dog')), repeat=2):
                    syn = tuple(('s%d.%s.01' % (i, x), x, ws[i % 2]) for i, x in enumerate(p))
                    yield ('lexicon', (syn, (), ()))
        elif kind == 'words':
            for v in self.WORDS:
                for name in ('dog.n.01', "o'clock.r.01", 'a.k.a..r.01', '20.n.02', 'Dog.n.01'):
                    ws = tuple(dict.fromkeys((block[1], v)))
                    yield ('lexicon', (((name, 'n', ws), ('b.v.01', 'v', ws[::-1])), (('causes', 0, 1), ('causes', 1, 0)),
                                       (('antonyms', (0, 0), (1, 0)),)))
        elif kind == 'synsets':
            pairs = list(itertools.product(range(3), repeat=2))
            for k in range(1, 4 if self.thorough else 3):
                for ps in itertools.permutations(pairs, k):
                    if block[1] in SYNSET or k == 1:
                        yield ('lexicon', (base, tuple((block[1],) + p for p in ps), ()))
        elif kind == 'lemmas':
            ls = self.positions(base)
            pairs = list(itertools.product(ls, repeat=2))
            for p in pairs:
                yield ('lexicon', (base, (), ((block[1],) + p,)))
                yield ('again', (base, (), ((block[1],) + p,)))
            for p, q in itertools.product(pairs[::1 if self.thorough else 5], pairs):
                if p != q:
                    for other in LEMMA:
                        yield ('lexicon', (base, (), ((block[1],) + p, (other,) + q)))
        elif kind == 'mixed':
            for p in itertools.product(range(3), repeat=2):
                for other in SYNSET + LEMMA + fakes.OTHER_RELATIONS:
                    for q in itertools.product(range(3), repeat=2):
                        if other in LEMMA:
                            lex = (base, ((block[1],) + p,), ((other, (q[0], 0), (q[1], len(base[q[1]][2]) - 1)),))
                        else:
                            lex = (base, ((block[1],) + p, (other,) + q), ())
                        yield ('lexicon', lex)
                yield ('again', (base, ((block[1],) + p,), ()))
        elif kind == 'network':
            # every relation at once
            i, j = block[1]
            for k, l in self.all_pairs():
                rel = tuple((r, i, j) for r in SYNSET) + tuple((r, k, l) for r in SYNSET[::-1] if (k, l) != (i, j))
                lem = tuple((r, (i, 0), (j, 0)) for r in LEMMA) + tuple((r, (l, 0), (k, 0)) for r in LEMMA if (l, k) != (i, j))
                yield ('lexicon', (base, rel, lem))
                yield ('again', (base, rel, lem))
        elif kind == 'size':
            yield ('size', block[1], 'synonyms')
            yield ('size', block[1], 'synsets')
        else:
            yield ('lexicon', ((), (), ()))
            yield ('again', ((), (), ()))

    def synsets(self, lex):
        syn, rel, lem = lex
        res = [fakes.Synset(*s) for s in syn]
        for r, i, j in rel:
            res[i].related.setdefault(r, []).append(res[j])
        for r, (i, a), (j, b) in lem:
            res[i].lemmas()[a].related.setdefault(r, []).append(res[j].lemmas()[b])
        return res

    def beliefs(self, lex):
        syn, rel, lem = lex

        def symbol(i, j=0):
            return '%s/wn.%s' % (syn[i][2][j], syn[i][0])

        for i, (_, pos, words) in enumerate(syn):
            yield ('pos/gb', symbol(i), POS[pos])
            for j in range(1, len(words)):
                yield ('synonym/gb', symbol(i), symbol(i, j))
        for r, i, j in rel:
            if r in SYNSET:
                yield (RELATION[r] + '/gb', symbol(i), symbol(j))
        for r, a, b in lem:
            yield (RELATION[r] + '/gb', symbol(*a), symbol(*b))

    def read(self, hg, lex):
        import gb.readers.wordnet as reader
        fakes.corpus.synsets_list = self.synsets(lex)
        with contextlib.redirect_stdout(io.StringIO()):
            reader.read(hg)

    def run_case(self, case, rec):
        if case[0] == 'size':
            n = case[1]
            if case[2] == 'synonyms':
                lex = ((('w.n.01', 'n', tuple('w%d' % i for i in range(n))),), (), ())
            else:
                lex = (tuple(('w%d.n.01' % i, 'n', ('w',)) for i in range(n)), (), ())
        else:
            lex = case[1]
        m = Model()
        hg = new_hg()
        other = ('hypernym/gb', 'dog/wn.dog.n.01', 'dog')
        try:
            if case[0] == 'again':
                for op in (('add', other, 3), ('bel+', 'someone', other)):
                    apply(m, op)
                    getattr(hg, {'add': 'add', 'bel+': 'add_belief'}[op[0]])(*op[1:])
            beliefs = list(self.beliefs(lex))
            for _ in range(2 if case[0] == 'again' else 1):
                self.read(hg, lex)
                for b in beliefs:
                    apply(m, ('bel+', 'wordnet/gb', b))
                    rec.count('transitions')
                u = universe(beliefs[:3] + beliefs[-3:] + [other], extra_vertices=['wordnet/gb', 'noun/gb'])
                why = differs(snapshot(hg, u), model_snapshot(m, u))
                if why:
                    raise Mismatch(why)
                for b in [other] + (beliefs if case[0] != 'size' else beliefs[-3:]):
                    if keys(hg.sources(b)) != keys(m.sources(b)):
                        raise Mismatch('the sources of %s are %s' % (b, hg.sources(b)))
            rec.count('traces_validated_against_impl')
            rec.state(m.state())
            rec.sample(case)
        finally:
            close(hg)


class W01(Check):
    """A dump is a sequence of pieces, which give lines.
    Cases:
    ('dump', pieces, end): with or without an end of line at the last line.
    ('big', what, n): many pages, long pages, or long lines.
    ('process', pieces): the script in its own process."""

    prop = 'W01'
    technique = 'exhaustive enumeration of dumps up to a number of pieces, filtered by the real script'
    rule = 'every sequence of pieces up to a length: lines outside of pages, and pages with every title of a list, with every ' \
        'combination of lines before and after the title; characters of all Unicode in titles and lines'
    assumptions = ['tags of pages and titles are in lines of their own, each page has a title, and the text of pages has no such tags']

    OUTSIDE = ['<mediawiki xml:lang="en">\n', '  <siteinfo>: x\n', '\n', '</mediawiki>\n']
    TITLES = ['Graph', 'Talk:Graph', 'A:', ':B', ':', '', 'a &lt; b', 'x::y', 'ns = 0', 'Caf\u00e9', 'Caf\u00e9:\u65e5\u672c', 'page', 'a; b.',
              'http://x', 'title: a', '<b>']
    BEFORE = [(), ('    <ns>0</ns>\n',), ('    <id>5</id>: a:b\n', '\n')]
    AFTER = [(), ('    <text>Talk: colon</text>\n',), ('    <text>\n', 'x : y\n', '\n', '    </text>\n'),
             ('    <ns>1</ns>\n', '    <redirect title="A:B" />\n'), ('    a page,\u2028 a\x0c title, < page >\n',)]

    def setup(self):
        path = os.path.join(REPO, 'python', 'filter_wikidump.py')
        spec = importlib.util.spec_from_file_location('filter_wikidump', path)
        self.module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.module)
        self.path = path

    def pages(self):
        return [('page', t, i, j) for t in range(len(self.TITLES)) for i in range(len(self.BEFORE)) for j in range(len(self.AFTER))]

    def few(self):
        """Pieces for long dumps."""
        return [('line', 0), ('line', 1), ('line', 2), ('page', 0, 0, 0), ('page', 1, 0, 0), ('page', 0, 1, 2), ('page', 1, 1, 2), ('page', 7, 2, 3),
                ('page', 5, 2, 1), ('page', 2, 0, 4), ('page', 3, 1, 0)]

    def blocks(self):
        ps = self.pages()
        for i in range(0, len(ps), 8):
            yield ('pairs', i)
        for a in self.few():
            for b in self.few():
                yield ('long', a, b)
        for p in self.few():
            yield ('process', p)
        yield ('one',)
        yield ('big',)
        for i in range(0, 0x110000, 0x1000):
            if i < 0x4000 or self.thorough or i in (0xf000, 0x1f000):
                yield ('chars', i)

    def cases(self, block):
        few = self.few()
        if block[0] == 'big':
            for what in ('pages', 'lines', 'before', 'line', 'title', 'outside'):
                for n in (100, 1000, 1001, 5000, 70000):
                    yield ('big', what, n)
            return
        if block[0] == 'chars':
            for i in range(block[1], block[1] + 0x1000, 16):
                yield ('big', 'chars', i)
            return
        if block[0] == 'pairs':
            for p in self.pages()[block[1]:block[1] + 8]:
                for q in self.pages() + few[:3]:
                    yield ('dump', (p, q), True)
        elif block[0] == 'long':
            for k in range(1, 5 if self.thorough else 4):
                for rest in itertools.product(few, repeat=k):
                    yield ('dump', block[1:] + rest, True)
                    if k == 1:
                        yield ('dump', block[1:] + rest, False)
        elif block[0] == 'one':
            yield ('dump', (), True)
            for p in self.pages() + [('line', i) for i in range(len(self.OUTSIDE))]:
                for end in (True, False):
                    yield ('dump', (p,), end)
                    yield ('dump', (('line', 0), p), end)
        else:
            yield ('process', (('line', 0), block[1], ('page', 1, 1, 2), block[1], ('line', 3)))

    def lines(self, piece):
        if piece[0] == 'line':
            return [self.OUTSIDE[piece[1]]]
        _, t, i, j = piece
        return (['  <page>\n'] + list(self.BEFORE[i]) + ['    <title>%s</title>\n' % self.TITLES[t]] + list(self.AFTER[j]) + ['  </page>\n'])

    def big(self, case):
        """A dump and its pages, each with whether it is kept."""
        _, what, n = case

        def page(title, before=(), after=()):
            return ''.join(['  <page>\n'] + list(before) + ['    <title>%s</title>\n' % title] + list(after) + ['  </page>\n'])

        if what == 'pages':
            res = [(page('a:%d' % i if i % 3 == 0 else 'a%d' % i), i % 3 != 0) for i in range(n)]
        elif what == 'lines':
            res = [(page(t, after=['      x: %d\n' % i for i in range(n)]), ':' not in t) for t in ('a', 'b:c', 'd', 'e:')]
        elif what == 'before':
            res = [(page(t, before=['      <x>%d</x>\n' % i for i in range(n)]), ':' not in t) for t in ('a', 'b:c', 'd', 'e:')]
        elif what == 'chars':
            res = []
            for c in (chr(i) for i in range(n, n + 16)):
                if c in '\r\n' or '\ud800' <= c < '\ue000':
                    continue
                for t in (c, 'a%sb' % c, '%sa' % c, 'a%s' % c, 'a%s:b' % c, 'a:%sb' % c, '%s:b' % c, 'a:%s' % c, '%s:' % c):
                    res.append((page(t, before=['    <x>%s:%s</x>\n' % (c, c)], after=['%sa:b%sc%s\n' % (c, c, c)]), ':' not in t))
                res.append(('%s: %s :%s\n' % (c, c, c), True))
        elif what == 'line':
            res = [(page(t, after=['      ' + 'x: ' * n + '\n']), ':' not in t) for t in ('a', 'b:c', 'd', 'e:')]
        elif what == 'title':
            res = [(page(t), ':' not in t) for t in ('a' * n, 'a' * n + ':', ':' + 'a' * n, 'a' * n + ':' + 'b' * n, 'b ' * n)]
        else:
            res = [('line: %d\n' % i, True) for i in range(n)] + [(page('a:b'), False)] + [('line: %d\n' % i, True) for i in range(n)]
        return ''.join(t for t, _ in res), ''.join(t for t, kept in res if kept)

    def run_case(self, case, rec):
        if case[0] == 'big':
            text, want = self.big(case)
            pieces = ()
        else:
            pieces = case[1]
            text, want = '', ''
        for p in pieces:
            ls = ''.join(self.lines(p))
            text += ls
            if p[0] == 'line' or ':' not in self.TITLES[p[1]]:
                want += ls
        if case[-1] is False:
            dropped = bool(pieces) and pieces[-1][0] == 'page' and ':' in self.TITLES[pieces[-1][1]]
            text = text[:-1]
            want = want if dropped else want[:-1]
        fd, path = tempfile.mkstemp(prefix='mc-', dir=SCRATCH)
        try:
            with os.fdopen(fd, 'w', encoding='utf-8') as f:
                f.write(text)
            if case[0] == 'process':
                r = subprocess.run([sys.executable, self.path, path], capture_output=True, text=True, encoding='utf-8',
                                   env=dict(os.environ, PYTHONUTF8='1'), cwd=SCRATCH)
                if r.returncode:
                    raise Mismatch('the script fails: %s' % short(r.stderr))
                got = r.stdout
            else:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    self.module.main([path])
                got = out.getvalue()
            with open(path, encoding='utf-8') as f:
                if f.read() != text:
                    raise Mismatch('the dump is changed')
        finally:
            os.unlink(path)
        if got != want:
            raise Mismatch('the dump %s gives %s, should give %s' % (short(text, 2000), short(got, 2000), short(want, 2000)))
        rec.count('transitions', text.count('\n'))
        rec.count('traces_validated_against_impl')
        rec.state(text)
        rec.sample(case)
