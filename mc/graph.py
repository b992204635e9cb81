"""The graph of all the reachable states of the model in a scenario, and tours that take all of its transitions."""
from collections import deque

from mc.hgmodel import Model, apply


class Memo(Model):
    """A model that does not change any more, and remembers its answers."""

    def __init__(self, m):
        self.edges = m.edges
        self.first = m.first
        self.known = {}

    def _ask(self, name, x):
        k = (name, repr(x))
        if k not in self.known:
            self.known[k] = getattr(Model, name)(self, x)
        return self.known[k]

    def pattern(self, p):
        return self._ask('pattern', p)

    def star(self, v):
        return self._ask('star', v)

    def symbols_with_root(self, r):
        return self._ask('symbols_with_root', r)

    def degree(self, v):
        return self._ask('degree', v)


class Graph:
    """models: state of each node, the first is the start. next: node x operation -> node. order: nodes in depth first order."""

    def __init__(self, ops, limit=200000):
        start = Model()
        self.ops = ops
        self.models = [Memo(start)]
        self.next = []
        self.complete = True
        ids = {start.state(): 0}
        todo = deque([start])
        while todo:
            m = todo.popleft()
            row = []
            for op in ops:
                n = m.copy()
                apply(n, op)
                s = n.state()
                if s not in ids:
                    if len(self.models) >= limit:
                        self.complete = False
                        row.append(None)
                        continue
                    ids[s] = len(self.models)
                    self.models.append(Memo(n))
                    todo.append(n)
                row.append(ids[s])
            self.next.append(row)
        seen = {0}
        self.order = []
        stack = [0]
        while stack:
            x = stack.pop()
            self.order.append(x)
            for y in reversed(self.next[x]):
                if y is not None and y not in seen:
                    seen.add(y)
                    stack.append(y)

    def transitions(self):
        return sum(1 for row in self.next for y in row if y is not None)

    def tour(self, part, parts):
        """Operations of a walk from the start that takes every transition from the nodes of that part."""
        n = len(self.order)
        nodes = self.order[part * n // parts:(part + 1) * n // parts]
        left = {x: [o for o in range(len(self.ops)) if self.next[x][o] is not None] for x in nodes}
        at = 0
        while left:
            if at in left:
                # what changes nothing first
                same = [o for o in left[at] if self.next[at][o] == at]
                o = same[0] if same else left[at][-1]
                left[at].remove(o)
                if not left[at]:
                    del left[at]
                yield at, o
                at = self.next[at][o]
                continue
            back = {at: None}
            todo = deque([at])
            goal = None
            while todo and goal is None:
                x = todo.popleft()
                for o, y in enumerate(self.next[x]):
                    if y is not None and y not in back:
                        back[y] = (x, o)
                        if y in left:
                            goal = y
                            break
                        todo.append(y)
            if goal is None:
                # cannot be reached from here any more: the caller starts again
                yield None, None
                at = 0
                continue
            path = []
            while back[goal] is not None:
                path.append(back[goal])
                goal = back[goal][0]
            for x, o in reversed(path):
                yield x, o
                at = self.next[x][o]
