"""S01-S08: what is stored and what the queries say."""
from mc.core import Mismatch, short
from mc.hgmodel import perform
from mc.histories import HistoryCheck
from mc.observe import visit_changing

TECH = 'explicit-state exploration of operation histories on the real code against a reference model'


class S01(HistoryCheck):
    prop = 'S01'
    technique = TECH
    kinds = ('exists', 'all')


class S02(HistoryCheck):
    prop = 'S02'
    technique = TECH
    kinds = ('patterns',)


class S03(HistoryCheck):
    prop = 'S03'
    technique = TECH
    kinds = ('star',)


class S04(HistoryCheck):
    prop = 'S04'
    technique = TECH
    kinds = ('roots',)


class S05(HistoryCheck):
    prop = 'S05'
    technique = TECH
    kinds = ('degree',)


class S06(HistoryCheck):
    prop = 'S06'
    technique = TECH
    kinds = ('timestamp',)


class S07(HistoryCheck):
    prop = 'S07'
    technique = TECH
    kinds = ('f_all', 'f_all_stopped', 'f_all')
    rule = HistoryCheck.rule + '; every operation from every reachable state again, in the middle of an enumeration'

    def blocks(self):
        for s in self.touring():
            k = max(1, len(self.graph(s).models) // 150)
            for i in range(k):
                for mode in range(6) if self.thorough else (None,):
                    yield ('changing', s.name, i, k, mode)
        yield from super().blocks()

    def case_changing(self, hg, case, rec):
        """As a tour, with each operation in the middle of an enumeration."""
        _, name, part, parts, mode = case
        s = self.table[name]
        g = self.graph(s)
        first = hg
        for n, (x, o) in enumerate(g.tour(part, parts)):
            if x is None:
                self.close(hg)
                hg = self.new_hg()
                continue
            how = mode if mode is not None else (n + x + o) % 6
            op, m, m2 = s.ops[o], g.models[x], g.models[g.next[x][o]]
            at = (0, 1, len(m.vertices()) // 2)[how // 2]
            try:
                visit_changing(hg, lambda: perform(hg, op), at, how % 2, m, m2)
            except Mismatch as e:
                raise Mismatch('with %s, and %s %s: %s' % (short([e for e, _ in m.edges.values()]), short(op), (
                    'between the visits', 'by the function')[how % 2], e))
            rec.count('transitions')
        self.observe(hg, m2, s.u, 'after operations in the middle of enumerations')
        if hg is not first:
            self.close(hg)


class S08(HistoryCheck):
    prop = 'S08'
    technique = TECH
    kinds = ('all', 'star', 'f_all', 'exists')
    parts = ('rich', 'arity', 'large', 'set')
