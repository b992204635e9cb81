"""Reference model of a hypergraph: what the operations mean, written without looking at how the code does it."""
import math


def key(v):
    """Identity of a vertex or edge, distinguishing types."""
    if isinstance(v, (list, tuple)):
        return ('e',) + tuple(key(x) for x in v)
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, float):
        return ('f', repr(v))
    return ('?', repr(v))


def keys(vs):
    return frozenset(key(v) for v in vs)


def is_edge(v):
    return isinstance(v, (list, tuple))


def is_multi(edges):
    """The operations that take one or several edges tell them apart by the first element."""
    return is_edge(edges[0])


SRC = 'src/1'


class Model:
    def __init__(self):
        self.edges = {}      # key -> (edge, timestamp)
        self.first = {}      # key -> timestamp of the first mention, None if not determined

    def copy(self):
        m = Model()
        m.edges = dict(self.edges)
        m.first = dict(self.first)
        return m

    def state(self):
        return (tuple(sorted((repr(k), ts) for k, (_, ts) in self.edges.items())),
                tuple(sorted((repr(k), ts) for k, ts in self.first.items())))

    # --- changes

    def add1(self, edge, ts=-1):
        k = key(edge)
        if k in self.edges:
            return
        for v in edge:
            kv = key(v)
            if is_edge(v):
                if kv not in self.edges:
                    self.first[kv] = None
            elif kv not in self.first:
                self.first[kv] = ts
        self.edges[k] = (edge, ts)
        self.first[k] = ts

    def rem1(self, edge):
        k = key(edge)
        if k in self.edges:
            del self.edges[k]
            self.first[k] = -1

    def add(self, edges, ts=-1):
        for e in (edges if is_multi(edges) else [edges]):
            self.add1(e, ts)

    def rem(self, edges):
        for e in (edges if is_multi(edges) else [edges]):
            self.rem1(e)

    def destroy(self):
        self.edges = {}
        self.first = {}

    def remove_by_pattern(self, pattern):
        for e in self.pattern(pattern):
            self.rem1(e)

    def add_belief(self, source, edges, ts=-1):
        for e in (edges if is_multi(edges) else [edges]):
            self.add1(e, ts)
            self.add1((SRC, e, source), ts)

    def remove_belief(self, source, edge):
        self.rem1((SRC, edge, source))
        if not self.sources(edge):
            self.rem1(edge)

    # --- queries

    def exists(self, edge):
        return key(edge) in self.edges

    def pattern(self, pattern):
        n = len(pattern)
        return [e for e, _ in self.edges.values()
                if len(e) == n and all(p is None or key(p) == key(x) for p, x in zip(pattern, e))]

    def star(self, v):
        k = key(v)
        return [e for e, _ in self.edges.values() if any(key(x) == k for x in e)]

    def symbols_with_root(self, root):
        return set(x for e, _ in self.edges.values() for x in e
                   if isinstance(x, str) and '/' in x and x[:x.index('/')] == root)

    def degree(self, v):
        k = key(v)
        return sum(1 for e, _ in self.edges.values() for x in e if key(x) == k)

    def timestamp(self, v):
        """None if the properties do not say."""
        return self.first.get(key(v), -1)

    def vertices(self):
        """Every stored edge and every vertex of one, with its degree."""
        res = {}
        for k, (e, _) in self.edges.items():
            res.setdefault(k, 0)
            for x in e:
                res[key(x)] = res.get(key(x), 0) + 1
        return res

    def sources(self, edge):
        return [e[2] for e in self.pattern((SRC, edge, None))]

    def ego(self, center, depth):
        """Edges within a distance, breadth first."""
        res = {}
        frontier = {key(center): center}
        seen = set(frontier)
        for _ in range(depth):
            nxt = {}
            for v in frontier.values():
                for e in self.star(v):
                    res[key(e)] = e
                    for x in e[1:]:
                        if key(x) not in seen:
                            seen.add(key(x))
                            nxt[key(x)] = x
            frontier = nxt
        return list(res.values())


def apply(m, op):
    """Effect of an operation on the model. What it returns is compared with what the code returns,
    unless it is NotImplemented."""
    name = op[0]
    if name == 'add':
        m.add(op[1], op[2] if len(op) > 2 else -1)
        return NotImplemented
    if name == 'rem':
        m.rem(op[1])
    elif name == 'destroy':
        m.destroy()
    elif name == 'rbp':
        m.remove_by_pattern(op[1])
    elif name == 'bel+':
        m.add_belief(op[1], op[2], op[3] if len(op) > 3 else -1)
    elif name == 'bel-':
        m.remove_belief(op[1], op[2])
    elif name == 'batch':
        for o in op[1]:
            apply(m, o)
    elif name == 'touch':
        pass
    else:
        raise ValueError(name)
    return NotImplemented


def perform(hg, op):
    """The operation on the code under test."""
    name = op[0]
    if name == 'add':
        if len(op) > 2:
            return hg.add(op[1], op[2])
        return hg.add(op[1])
    if name == 'rem':
        return hg.remove(op[1])
    if name == 'destroy':
        return hg.destroy()
    if name == 'rbp':
        return hg.remove_by_pattern(op[1])
    if name == 'bel+':
        if len(op) > 3:
            return hg.add_belief(op[1], op[2], op[3])
        return hg.add_belief(op[1], op[2])
    if name == 'bel-':
        return hg.remove_belief(op[1], op[2])
    if name == 'batch':
        # the functions get the backend, which does not have the operations on beliefs
        funs = {}
        for o in op[1]:
            # the same operation is the same function
            funs.setdefault(repr(o), lambda b, o=o: perform(b if hasattr(b, NEEDS.get(o[0], 'add')) else hg, o))
        return hg.batch_exec([funs[repr(o)] for o in op[1]])
    if name == 'touch':
        # queries, whose results are not looked at here
        for v in op[1]:
            hg.degree(v)
            hg.timestamp(v)
            hg.star(v)
            if is_edge(v):
                hg.exists(v)
                hg.pattern2edges(v[:1] + (None,) * (len(v) - 1))
        return None
    raise ValueError(name)


NEEDS = {'rbp': 'remove_by_pattern', 'bel+': 'add_belief', 'bel-': 'remove_belief', 'rem': 'remove',
         'touch': 'degree'}


# --- queries as operations, with their results

def query(hg, q):
    name = q[1]
    if name == 'exists':
        return bool(hg.exists(q[2]))
    if name == 'degree':
        return hg.degree(q[2])
    if name == 'timestamp':
        return hg.timestamp(q[2])
    if name == 'star':
        return keys(hg.star(q[2]))
    if name == 'pattern':
        return keys(hg.pattern2edges(q[2]))
    if name == 'roots':
        return keys(hg.symbols_with_root(q[2]))
    if name == 'sources':
        return keys(hg.sources(q[2]))
    if name == 'f_all':
        return {key(v): d for v, d in list(hg.f_all(lambda x: (x['vertex'], x['degree'])))}
    raise ValueError(name)


def answers(m, q, got):
    """Is that what the model answers?"""
    name = q[1]
    if name == 'exists':
        return got == m.exists(q[2])
    if name == 'degree':
        return got == m.degree(q[2])
    if name == 'timestamp':
        return m.timestamp(q[2]) is None or got == m.timestamp(q[2])
    if name == 'star':
        return got == keys(m.star(q[2]))
    if name == 'pattern':
        return got == keys(m.pattern(q[2]))
    if name == 'roots':
        return got == keys(m.symbols_with_root(q[2]))
    if name == 'sources':
        return got == keys(m.sources(q[2]))
    if name == 'f_all':
        want = m.vertices()
        return all(got.get(k) == d for k, d in want.items()) and all(d == 0 for k, d in got.items() if k not in want)
    raise ValueError(name)
