"""C14: destroying an object releases all of it, once, and nothing else."""
from owners import *


def run(ck):
    for fn, lab, e, st, args, post, nr, marked in cases(ck):
        ck.run(fn, e, st, args, post, label=lab, on_noreturn=nr)
    hs = HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC')
    se = HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC')
    for ht, a, b in ((hs, 'hsh_insert', 'hsh_delete'), (se, 'set_insert', 'set_delete')):
        for fn, lab, e, st, args, post in drops(ck, ht, a, b):
            ck.run(fn, e, st, args, post, label=lab)
    return dict(minimum=15)
