"""Singly linked sequences (list.c, stack.c): one abstract pre-state of any length, the sequence afterwards."""
from htable import *


class Seq:
    """nodes of struct `node` (payload field + link), reached from the owner"""

    def __init__(s, ck, mod, owner, node, payload, link):
        s.ck, s.mod = ck, mod
        s.O = fields_of(ck.prog, mod, owner)
        s.N = fields_of(ck.prog, mod, node)
        s.payload, s.link = payload, link
        for f in (payload, link):
            ck.need(f in s.N, 'field %s.%s' % (node, f))
        s.nodesize = max(o + z for o, z, _ in s.N.values())

    def install(s, e, tag='lchain'):
        N = s.N
        s.tag = tag

        def node(st, r, i, sz, ty):
            if not isconst(i[-1]):
                return None
            par = tuple(x for x in r[2:]) + tuple(i[:-2])
            S = atom(r[1], *par)
            if i[-1].c == N[s.link][0]:
                return app('elem', S, add(i[-2], ONE))
            if i[-1].c == N[s.payload][0]:
                return app('datum', S, i[-2], ptr=True)
        e.regions[('E', tag)] = node

    def segs(s, o, head):
        return join(o, walk(o, head, s.N[s.link][0]))

    def datum(s, o, p):
        return o.st.norm(o.e.read(o.st, add(p, const(s.N[s.payload][0])), 8, ir.PTR))

    def is_sequence(s, o, head, S, expected, nm):
        """the sequence from head is `expected`: [('run', lo, hi) | ('val', datum)], contents included"""
        st = o.st
        segs = s.segs(o, head)
        exp = [x for x in expected if x[0] == 'val' or not o.need(le(x[2], x[1]))]
        shown = [(x[2], x[3]) if x[0] == 'run' else 'new' for x in segs]
        i = 0
        cur = None
        for g in segs:
            if g[0] == 'node':
                if cur is not None or i >= len(exp) or exp[i][0] != 'val':
                    return o.fail(nm, 'the sequence is %s' % shown)
                o.equal(s.datum(o, g[1]), exp[i][1], nm, 'the new element holds %s instead of %s' % (s.datum(o, g[1]), exp[i][1]))
                i += 1
                continue
            _, SS, lo, hi = g
            if SS is not S:
                return o.undec(nm, 'foreign run %s' % (g,))
            while not o.need(le(hi, lo)):
                if cur is None:
                    if i >= len(exp) or exp[i][0] != 'run':
                        return o.fail(nm, 'the sequence is %s of %s elements' % (shown, app('n', S)))
                    cur = (exp[i][1], exp[i][2])
                    i += 1
                if not o.need(eq(cur[0], lo)):
                    return o.fail(nm, 'the sequence is %s of %s elements' % (shown, app('n', S)))
                if o.need(le(hi, cur[1])):
                    cur = (hi, cur[1])
                    if o.need(le(cur[1], cur[0])):
                        cur = None
                    break
                lo = cur[1]
                cur = None
        if cur is not None or i != len(exp):
            return o.fail(nm, 'the sequence is only %s of %s elements' % (shown, app('n', S)))
        o.good(nm)

    def contents_kept(s, o, S, nm, except_at=None):
        """payloads of the old nodes are untouched (except one)"""
        for en in o.st.log.get(('E', s.tag) + tuple(x for x in S.args if not isinstance(x, Lin)), ()):
            off = en.idx[-1]
            if isconst(off) and off.c == s.N[s.payload][0]:
                if except_at is not None and not en.binders:
                    idx, val = except_at
                    o.must(conj(eq(en.idx[-2], idx)), nm, 'element %s is changed instead of %s' % (en.idx[-2], idx))
                    o.equal(en.val, val, nm, 'the element becomes %s' % (en.val,))
                else:
                    o.equal(en.val, app('datum', S, en.idx[-2]) if not en.binders else ZERO, nm, 'the datum of element %s is overwritten' % en.idx[-2])

    def only_freed(s, o, S, lo, hi, nm):
        """exactly the nodes lo..hi-1 were released"""
        fr = o.st.freed.get(('E', s.tag) + tuple(x for x in S.args if not isinstance(x, Lin)), ())
        runs = []
        for en in fr:
            if en.guard is not True and not o.need(en.guard):
                continue
            ix = en.idx[-2]
            if en.binders:
                if len(en.binders) != 1:
                    return o.undec(nm, 'nested releases')
                r = range_of(ix, en.binders)
                if r is None:
                    return o.undec(nm, 'release of %s' % ix)
            else:
                r = (ix, add(ix, ONE))
            if not o.need(le(r[1], r[0])):
                runs.append(('run', S, r[0], r[1]))
        if o.need(le(hi, lo)):
            if runs:
                return o.fail(nm, 'elements %s are released although they stay' % [(r[2], r[3]) for r in runs])
            return o.good(nm)
        for r in runs:
            o.must(conj(le(lo, r[2]), le(r[3], hi)), nm, 'elements %s..%s are released, only %s..%s are removed' % (r[2], r[3], lo, hi))
        if tile(o, runs, lo, hi):
            o.good(nm)
        else:
            o.fail(nm, 'elements %s of the removed %s..%s are released' % ([(r[2], r[3]) for r in runs], lo, hi))


def callback(name='visit'):
    def visit(en, st2, ins, a, x):
        ret = en.fresh(st2, name, rng=(-(1 << 31), (1 << 31) - 1))
        en.event(st2, name, list(a), ret, ins)
        return ret
    return visit


def in_order(o, evs, S, nm, n, extra=(), stopname='the first non-zero answer ends the iteration', expect=None):
    """the visits show element 0,1,2,... in this order; returns the last unquantified visit (or None) and how many were shown"""
    st = o.st
    pos = ZERO
    vis = [x for x in flat(evs) if x[2].name == 'visit' or x[2].name.startswith('?')]
    last = None
    for i, (b, g, ev) in enumerate(vis):
        if ev.name.startswith('?'):
            o.undec(nm, 'events abstracted')
            return None, None
        if len(b) > 1:
            o.undec(nm, 'nested visits')
            return None, None
        f = st.facts
        if b:
            v, lo, hi = b[0]
            if o.need(le(hi, lo)):
                continue
            f = f.assume(le(lo, v.lin))
            f = f and f.assume(lt(v.lin, hi))
            if f is None:
                continue
        s3 = st.copy()
        s3.facts = f
        if g is not True and s3.decide(g) is not True:
            if weak(g):
                o.undec(nm, 'guard')
                return None, None
            o.fail(nm, 'an element is shown only if %s' % showc(g)) if witness(s3, neg(g)) else o.undec(nm, 'guard')
            return None, None
        a = [s3.norm(x) for x in ev.args]
        k = single(a[0])
        if k is None or k.fn != 'datum' or k.args[0] is not S:
            if weak(a[0]):
                o.undec(nm, '%s' % a[0])
            else:
                o.fail(nm, 'the callback is given %s instead of an element (%s)' % (a[0], ev.loc))
            return None, None
        ix = k.args[1]
        if b:
            v, lo, hi = b[0]
            kk = dict(ix.t).get(v)
            if kk != 1:
                o.fail(nm, 'the elements are not shown in order') if kk == -1 else o.undec(nm, 'index %s' % ix)
                return None, None
            rlo, rhi = range_of(ix, b)
        else:
            rlo, rhi = ix, add(ix, ONE)
        if not o.need(eq(rlo, pos)):
            o.fail(nm, 'after the first %s elements the callback is shown element %s' % (pos, rlo))
            return None, None
        pos = rhi
        for j, w in enumerate(extra, 1):
            if len(a) <= j or a[j] is not s3.norm(w):
                o.fail('the caller\'s argument is passed on', 'the callback gets %s' % (a[j:],))
            else:
                o.good('the caller\'s argument is passed on')
        if not b and i == len(vis) - 1 and st.decide(eq(ev.ret)) is not True:
            last = ev
            continue
        if s3.decide(eq(s3.norm(ev.ret))) is True:
            o.good(stopname)
        else:
            o.fail(stopname, 'the iteration goes on although the callback may have answered non-zero (%s)' % ev.loc)
    return last, pos


def small(st, *ns):
    """small sizes to look at where the sequence of any size stays undecided"""
    out = [('%d elements' % k, [eq(ns[0], const(k))]) for k in (0, 1, 2, 3)]
    for n in ns[1:]:
        out = [('%s; %s' % (l, m), c + d) for (l, c) in out for m, d in [('%d more' % k, [eq(n, const(k))]) for k in (0, 1, 2)]]
    st.extra['shapes'] = st.extra.get('shapes', []) + out
