"""Exploration of operation histories: every operation is analysed from every abstract
state some history reaches, up to equality of an abstract signature of the state."""
from spec import *


class Node:
    __slots__ = ('ghost', 'st', 'via')

    def __init__(s, ghost, st, via):
        s.ghost, s.st, s.via = ghost, st, via


def classify(e, st, v, depth=0):
    """what the signature keeps of a value"""
    if not isinstance(v, Lin):
        return '?'
    v = st.norm(v)
    if not v.t:
        return v.c if abs(v.c) <= 8 else ('const', v.c) if abs(v.c) > 4096 or v.c % 8 == 0 else 'some'
    x = single(v)
    if x is not None:
        if x.fn == 'alloc':
            try:
                root, idx = e.root_of(st, v)
                return ('heap', e.is_freed(st, root, idx) is not None)
            except Exception:
                return 'heap?'
        if x.fn in ('fn', 'glob', 'sym'):
            return str(x)
    z = st.decide(eq(v))
    if z is True:
        return 0
    s = 'nonneg' if st.decide(le(ZERO, v)) is True else 'neg' if st.decide(lt(v, ZERO)) is True else 'any'
    return (s, z, x.fn if x is not None else 'lin')


def statics(e, st, skip=lambda key: False):
    """classification of every scalar of static storage some step has written"""
    r = []
    for root, log in st.log.items():
        if root[0] != 'G' or skip(root[1]) or not log:
            continue
        seen = set()
        for en in log:
            if en.binders or not isinstance(en.size, int) or not all(isconst(i) for i in en.idx):
                continue
            if en.size == 1:
                continue            # text
            seen.add((en.idx[-1].c, en.size, isinstance(en.val, Lin) and E._anyptr(en.val)))
        for k in seen:
            ty = ir.PTR if k[2] else ir.INTS[k[1] * 8]
            try:
                v = e.read_at(st, root, (const(k[0]),), k[1], ty)
                w = e.initial(st, root, (const(k[0]),), k[1], ty)
            except Exception:
                v, w = None, None
            c = str(classify(e, st, v))
            if w is not None and c == str(classify(e, st, w)):
                continue            # as at the start of the program
            r.append((root[1], k[0], k[1], c))
    # pointer/integer views of one word may both have been recorded
    return tuple(sorted(set(r), key=str))


def explore(ck, e, start, ghost0, ops, signature=None, limit=400, label=None):
    """ops: [(name, fn, args(ghost, st) -> list or None, judge(o, ghost, event list) -> new ghost or None)]
    judge is called on every way the call can end (o.st.term)."""
    sig = signature or (lambda g, st: (tuple(sorted(g.items(), key=str)), statics(e, st)))
    nodes, seen = [Node(ghost0, start, ())], {}
    seen[repr(sig(ghost0, start))] = 0
    i = 0
    ck.extra.setdefault('histories', {})
    had = len(ck.viol)
    while i < len(nodes):
        if len(ck.viol) > had + 60:
            ck.undecided(label or ops[0][1], 'histories', 'not explored further after %d violations' % (len(ck.viol) - had))
            break
        nd = nodes[i]
        i += 1
        if len(nodes) > limit:
            ck.undecided(label or ops[0][1], 'histories', 'more than %d abstract states' % limit)
            break
        for name, fn, mkargs, judge in ops:
            st = nd.st.copy()
            st.events, st.path, st.errs = (), (), ()
            st.term = st.retval = None
            args = mkargs(nd.ghost, st)
            if args is None:
                continue
            nxt = []

            def post(o, noret=None):
                g = judge(o, nd.ghost, [x[2] for x in flat(o.st.events)], noret)
                if g is not None:
                    nxt.append((g, o))
            via = nd.via + (name,)
            e.steps = 0
            ck.run(fn, e, st, args, post, label='after ' + ', '.join(nd.via) if nd.via else None, on_noreturn=lambda o, how: post(o, how))
            for g, o in nxt:
                if any(k == 'bad' for k, n, m in o.results):
                    continue
                s2 = o.st.copy()
                s2.frames, s2.term, s2.path = [], None, ()
                for r in [r for r in s2.log if r[0] == 'SZ' and False]:
                    del s2.log[r]
                k = repr(sig(g, s2))
                if k not in seen:
                    seen[k] = len(nodes)
                    nodes.append(Node(g, s2, via))
    ck.extra['histories'][label or 'module'] = {'abstract_states': len(nodes), 'operations': [o[0] for o in ops], 'longest_shortest_history': max(len(n.via) for n in nodes)}
    return nodes
