"""Performs histories, under the recorder. Arguments: file with the pickled list of (path, initial, ops)."""
import os
import pickle
import sys

sys.path.insert(0, os.environ.get('MC_REPO', '/repo'))
sys.dont_write_bytecode = True

from gb.hypergraph.hypergraph import HyperGraph
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
from mc.hgmodel import perform
from mc.histories import close


def main():
    with open(sys.argv[1], 'rb') as f:
        todo = pickle.load(f)
    marks = os.open(os.path.join(os.environ['MC_DIR'], 'marks'), os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
    for path, initial, ops in todo:
        hg = None
        if initial is not None:
            hg = HyperGraph({'backend': 'sqlite', 'db': path})
            for op in initial:
                perform(hg, op)
        os.write(marks, b'begin')
        for k, op in enumerate(ops):
            os.write(marks, b'start')
            if op[0] == 'open':
                hg = HyperGraph({'backend': 'sqlite', 'db': path})
            elif op[0] == 'flush':
                bhg = BatchHyperGraph(hg, 10 ** 9)
                for o in op[1]:
                    perform(bhg, o)
                bhg.flush()
            else:
                perform(hg, op)
            os.write(marks, b'ack')
        os.write(marks, b'end')
        if hg is not None:
            close(hg)
        os.write(marks, b'closed')


if __name__ == '__main__':
    main()
    # whatever happens at the end of the process is not part of the histories
    os._exit(0)
