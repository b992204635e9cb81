"""Dependency trees, and the reference model of the stages of extraction.

In the model a word is its index in the sentence, a group is a tuple ('g', compound, elements).
The model of each stage is written from its definition, as functions of immutable values."""
import itertools

DEPS = ('acl', 'acomp', 'advcl', 'advmod', 'agent', 'amod', 'appos', 'attr', 'aux', 'auxpass', 'case', 'cc', 'ccomp', 'compound', 'conj',
        'csubj', 'csubjpass', 'dative', 'dep', 'det', 'dobj', 'expl', 'intj', 'mark', 'meta', 'neg', 'nmod', 'npadvmod', 'nsubj',
        'nsubjpass', 'nummod', 'oprd', 'parataxis', 'pcomp', 'pobj', 'poss', 'preconj', 'predet', 'prep', 'prt', 'punct', 'quantmod',
        'relcl', 'xcomp', '')
POS = ('ADJ', 'ADP', 'ADV', 'AUX', 'CONJ', 'CCONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SPACE', 'SYM',
       'VERB', 'X')

MODIFIERS = {'aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod'}
JOINED = {'pcomp', 'compound'}
IGNORED = {'', 'punct'}
OBJECTS = {'pobj', 'compound', 'dobj', 'nsubj'}
RELATIONAL = {'VERB', 'ADV', 'ADP', 'PART'}
ARTICLES = {'the', 'a', 'an'}


def heads_of(n):
    """Every rooted tree over n words, as the head of each one (the root is its own)."""
    for heads in itertools.product(range(n), repeat=n):
        roots = [i for i in range(n) if heads[i] == i]
        if len(roots) != 1:
            continue
        ok = True
        for i in range(n):
            j, steps = i, 0
            while heads[j] != j and steps <= n:
                j = heads[j]
                steps += 1
            ok = ok and steps <= n
        if ok:
            yield heads


def long_heads(n):
    """Some trees of many words: all under the root, chains, chains with words on the sides, and two levels."""
    res = [(r,) * n for r in (0, n // 2, n - 1)]
    res += [tuple(min(i + 1, r) if i <= r else i - 1 for i in range(n)) for r in (0, n // 2, n - 1)]
    res += [tuple(max(0, i - 1 - (i + 1) % 2) for i in range(n)), tuple(max(0, (i - 1) // 2) for i in range(n)),
            tuple(n // 2 if i in (1, n // 2, n - 2) else 1 if i < n // 2 else n - 2 for i in range(n))]
    return res


def root_of(heads):
    return [i for i in range(len(heads)) if heads[i] == i][0]


def projective(heads):
    for i, h in enumerate(heads):
        for j in range(min(i, h) + 1, max(i, h)):
            k = j
            while k != h and heads[k] != k:
                k = heads[k]
            if k != h:
                return False
    return True


def kids(heads, i, left):
    return [j for j in range(len(heads)) if heads[j] == i and j != i and ((j < i) == left)]


class Word:
    """Part of a case: what there is to know about a word."""


def spec(dep, pos, entity='', word=None, lemma=None):
    return (dep, pos, entity, word, lemma)


def word_of(words, i):
    dep, pos, entity, word, lemma = words[i]
    if word is not None:
        return word
    return 'the' if pos == 'DET' else 'w%d' % i


def lemma_of(words, i):
    return words[i][4] if words[i][4] is not None else word_of(words, i)


def tokens(heads, words):
    from gb.nlp.nlp_token import Token
    res = []
    for i in range(len(heads)):
        t = Token(word_of(words, i))
        t.lemma = lemma_of(words, i)
        t.shape = 'x'
        t.logprob = 0.0
        t.dep, t.pos, t.entity_type = words[i][0], words[i][1], words[i][2]
        t.left_children, t.right_children = [], []
        res.append(t)
    for i, h in enumerate(heads):
        if h != i:
            (res[h].left_children if i < h else res[h].right_children).append(res[i])
            res[i].parent = res[h]
    return res


# --- trees of the implementation

class Broken(Exception):
    pass


def snapshot(tree, elem_id, index, depth=0):
    """Value of an element of a tree of the implementation."""
    if depth > 60:
        raise Broken('the tree has a cycle')
    e = tree.get(elem_id)
    if e.is_leaf():
        return index[id(e.token)]
    return ('g', bool(e.compound), tuple(snapshot(tree, c, index, depth + 1) for c in e.children_ids))


def leaves(x):
    if not isinstance(x, tuple):
        return [x]
    res = []
    for y in x[2]:
        res += leaves(y)
    return res


def canon(x):
    """What matters of a compound is its words, in order."""
    if not isinstance(x, tuple):
        return x
    if x[1]:
        return ('c',) + tuple(leaves(x))
    return ('g', False, tuple(canon(y) for y in x[2]))


def show(x, words):
    if not isinstance(x, tuple):
        return word_of(words, x)
    if x[0] == 'c':
        return '_'.join(word_of(words, i) for i in x[1:])
    if x[1]:
        return '_'.join(show(y, words) for y in x[2])
    return '(%s)' % ' '.join(show(y, words) for y in x[2])


# --- first stage

def kept(heads, words):
    """Words outside of ignored subtrees."""
    def rec(i):
        res = [i]
        for left in (True, False):
            for j in kids(heads, i, left):
                if words[j][0] not in IGNORED:
                    res += rec(j)
        return res
    return rec(root_of(heads))


def alpha(heads, words):
    def has_verb(x):
        return any(words[i][1] == 'VERB' for i in leaves(x))

    def group(body):
        return body[0] if len(body) == 1 else ('g', False, tuple(body))

    def whole(i):
        around = []
        res = build(i, around)
        for w in reversed(around):
            # the group of the modifier takes what it modifies as its second element
            res = [w[0], group(res)] + w[1:]
        return group(res)

    def build(i, around):
        body = [i]
        for left in (True, False):
            for j in kids(heads, i, left):
                dep = words[j][0]
                if dep in IGNORED:
                    continue
                if dep in MODIFIERS or (dep == 'prep' and not any(has_verb(x) for x in body)):
                    around.append(build_modifier(j, around))
                elif dep in JOINED:
                    child = whole(j)
                    first = body[0]
                    elems = list(first[2]) if isinstance(first, tuple) else [first]
                    body[0] = ('g', False, tuple([child] + elems if left else elems + [child]))
                else:
                    body.append(whole(j))
        return body

    def build_modifier(j, around):
        # modifiers of a modifier modify the same whole
        return build(j, around)

    return clean(whole(root_of(heads)))


def clean(x):
    if not isinstance(x, tuple):
        return x
    elems = tuple(clean(y) for y in x[2])
    if len(elems) == 1 and isinstance(elems[0], tuple):
        return elems[0]
    return ('g', x[1], elems)


# --- second stage

def beta(x, words):
    if not isinstance(x, tuple):
        return x
    ls = leaves(x)
    flat = not any(isinstance(y, tuple) for y in x[2])
    entities = set(words[i][2] for i in ls)
    same = flat and len(entities) == 1 and bool(list(entities)[0])
    return ('g', same or all(words[i][0] in OBJECTS for i in ls), tuple(beta(y, words) for y in x[2]))


# --- third stage

def relation(x, words):
    return all(words[i][1] in RELATIONAL for i in leaves(x))


def gamma(x, words):
    if not isinstance(x, tuple):
        return x
    elems = tuple(gamma(y, words) for y in x[2])
    if all(not isinstance(y, tuple) and words[y][1] in RELATIONAL for y in elems):
        return ('g', True, elems)
    if len(elems) == 2:
        first, second = elems
        if not isinstance(first, tuple) and words[first][1] == 'DET' and lemma_of(words, first) in ARTICLES:
            return second
        if isinstance(second, tuple) and not second[1] and relation(first, words) and relation(second[2][0], words):
            return join(first, second)
    return ('g', x[1], elems)


def join(first, second):
    """Joins a relation to the first relation of a group."""
    head = second[2][0]
    if isinstance(head, tuple) and not head[1]:
        return ('g', second[1], (join(first, head),) + second[2][1:])
    return ('g', second[1], (('g', True, (first, head)),) + second[2][1:])


# --- fourth stage

def terminal(x):
    return not isinstance(x, tuple) or x[1]


def arity(x):
    return 1 if terminal(x) else len(x[2])


def flat(x):
    """Relations that are not compounds have no groups inside."""
    if not isinstance(x, tuple):
        return x
    elems = []
    for y in x[2]:
        y = flat(y)
        if terminal(y):
            elems.append(y)
        else:
            elems += y[2]
    return ('g', x[1], tuple(elems))


def loose(x):
    """What does not depend on the nesting inside of the first element of each group, which the fourth stage can drop."""
    if not isinstance(x, tuple):
        return x
    if x[1]:
        return ('c',) + tuple(leaves(x))
    return ('g', False, (canon(flat(x[2][0])),) + tuple(loose(y) for y in x[2][1:]))


def G(*elems):
    return ('g', False, tuple(elems))


def candidates(x, words):
    """The group and the ways in which it can absorb the relations of its parameters, in order."""
    if not isinstance(x, tuple):
        return [x]
    res = []

    def rec(rel, params, todo):
        if not todo:
            res.append(('g', False, (flat(rel),) + tuple(params)))
            return
        child = todo[0]
        for alt in candidates(child, words):
            if isinstance(alt, tuple) and relation(alt[2][0], words):
                right, more = alt[2][0], list(alt[2][1:])
                if not params:
                    rec(G(right, rel), params + more, todo[1:])
                if terminal(rel) and terminal(right):
                    rec(('g', True, (rel, right)), params + more, todo[1:])
                else:
                    la, lb = ((), rel) if terminal(rel) else (rel[2][:-1], rel[2][-1])
                    ra, rb = (right, ()) if terminal(right) else (right[2][0], right[2][1:])
                    rec(('g', False, tuple(la) + (('g', True, (lb, ra)),) + tuple(rb)), params + more, todo[1:])
                if terminal(right):
                    left = (rel,) if terminal(rel) else rel[2]
                    rec(('g', False, tuple(left) + (right,)), params + more, todo[1:])
            rec(rel, params + [child], todo[1:])

    rec(x[2][0], [], list(x[2][1:]))
    return res


def same_tokens(a, b, words):
    return all(word_of(words, i)[0:] == word_of(words, j) and words[i][1] == words[j][1] and words[i][0] == words[j][0]
               for i, j in ((a, b),))


def equal(x, y, words):
    if isinstance(x, tuple) != isinstance(y, tuple):
        return False
    if not isinstance(x, tuple):
        return same_tokens(x, y, words)
    return len(x[2]) == len(y[2]) and all(equal(a, b, words) for a, b in zip(x[2], y[2]))


def under(x, parent, child, words):
    """A group inside of x has a relation with some word of parent, and child as a parameter."""
    if arity(x) < 2:
        return False
    if any(same_tokens(i, j, words) for i in leaves(x[2][0]) for j in leaves(parent)):
        if any(equal(y, child, words) for y in x[2][1:]):
            return True
    return any(under(y, parent, child, words) for y in x[2][1:])


def fit(x, original, words):
    res = 0
    if isinstance(x, tuple) and relation(x[2][0], words):
        rel = x[2][0]
        if (arity(rel) == 1 and len(x[2]) == 2) or arity(rel) == len(x[2]) - 2:
            res += 1000
        if not terminal(rel):
            for i in range(min(arity(rel), arity(x) - 2)):
                if i == 0 and under(original, rel[2][0], x[2][1], words):
                    res += 100
                if under(original, rel[2][i], x[2][i + 2], words):
                    res += 100
    return res


def delta(x, words):
    if terminal(x) or not relation(x[2][0], words):
        return x
    best, best_fit = None, -1
    for c in candidates(x, words):
        f = fit(c, x, words)
        if f > best_fit:
            best, best_fit = c, f
    return best


# --- last stage

def epsilon(x, words, namespaces):
    if not isinstance(x, tuple):
        return '%s/%s' % (word_of(words, x), namespaces[x])
    if x[1]:
        return '%s/?' % '_'.join(word_of(words, i) for i in leaves(x))
    return tuple(epsilon(y, words, namespaces) for y in x[2])
