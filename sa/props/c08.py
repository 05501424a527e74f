"""C08: a skip list is an ordered set under every history of operations."""
import hashmodel as HM
import hist
import memmodel as MM
from spec import *

FATAL = ('err_fatal', 'err_internal', 'err_fatal_errno')
ONES = const(0x7fffffff)
COMPARE, KEY, PRINT, ARG = (sym(n, ptr=True) for n in ('compare', 'keyof', 'printer', 'argument'))


def datum(i):
    return app('glob', 'd%d' % i, ptr=True)


def isdatum(x):
    return x.fn == 'glob' and x.args[0][:1] == 'd' and x.args[0][1:].isdigit()


def twin(i):
    """a key that compares like the one of datum i and is another object"""
    return app('keyof', 'twin', 'd%d' % i, ptr=True)


def key(d):
    return app('keyof', 'of', single(d).args[0], ptr=True)


def install(ck, e):
    MM.install(e)
    e.pathwise = 40
    e.malloc_may_fail = False
    e.use_global_init = True
    e.check_bounds = True
    e.budget = 3000000
    M = e.models

    def random(en, st, ins, a):
        """the two extreme values; how often they may be large is up to the scenario"""
        c = st.extra.get('coins', 0)
        if c == 'ones':
            return ONES
        if not c:
            return ZERO
        out = []
        for v, n in ((ZERO, 0), (ONES, c - 1)):
            s = st.copy()
            s.extra['coins'] = n
            out.append((s, v))
        return out
    for n in ('random', 'rand', 'lrand48', 'arc4random'):
        M[n] = random
    M['srandom'] = M['srand'] = lambda en, st, ins, a: None

    def bad(en, st, ins, kind, msg):
        st.errs = st.errs + ((kind, en.prog.loc(ins), msg, ''),)
        raise E.Fault(kind)

    def name_of(en, st, ins, k):
        x = single(st.norm(k))
        if x is not None and x.fn == 'keyof':
            return x.args[1]
        if x is not None and isdatum(x) and st.extra.get('bare'):
            return x.args[0]
        bad(en, st, ins, 'foreign key', 'compare is called with %s, which is the key of no datum' % k)

    def compare(en, st, ins, a, x):
        p, q = (name_of(en, st, ins, k) for k in a[:2])
        order = st.extra['order']
        if p not in order or q not in order:
            bad(en, st, ins, 'gone', 'compare is called with the key of %s, which is neither in the list nor asked for' % (p if p not in order else q))
        if p == q:
            return ZERO
        # any value of the right sign
        if order.index(p) < order.index(q):
            return app('before', p, q, rng=(-(1 << 31), -1))
        return app('after', p, q, rng=(1, (1 << 31) - 1))
    e.fpmodels[single(COMPARE)] = compare

    def keyof(en, st, ins, a, x):
        d = single(st.norm(a[0]))
        if d is None or not isdatum(d):
            bad(en, st, ins, 'foreign datum', 'key is called with %s, which is no datum of the list' % a[0])
        if d.args[0] in st.extra['alias']:
            return twin(int(st.extra['alias'][d.args[0]][1:]))
        if d.args[0] not in st.extra['order']:
            bad(en, st, ins, 'gone', 'key is called with %s, which is not in the list any more' % d.args[0])
        return key(a[0])
    e.fpmodels[single(KEY)] = keyof
    e.fpmodels[single(PRINT)] = lambda en, st, ins, a, x: app('printed', ptr=True)
    for v in (0, 1):
        def visit(en, st, ins, a, x, arg=v):
            d = single(st.norm(a[0]))
            d = d.args[0] if d is not None and isdatum(d) else str(a[0])
            if arg and st.norm(a[1]) is not st.norm(ARG):
                bad(en, st, ins, 'argument', 'the function gets %s instead of the argument' % a[1])
            st.extra['visited'] = st.extra.get('visited', ()) + (d,)
            st.extra['ended'] = None
            act = st.extra.get('act')
            if act:
                k = len(st.extra['visited'])
                out = []
                for t, v2 in act(en, st, ins, d, k):
                    out.append((t, ZERO if v2 is not None else None))
                return out
            s2 = st.copy()
            s2.extra['ended'] = r = app('stop', rng=(-(1 << 31), (1 << 31) - 1))
            s2.facts = s2.facts.assume(ne(r)) or s2.facts
            return [(st, ZERO), (s2, r)]
        e.fpmodels[single(sym('visit%d' % v, ptr=True))] = visit


def shape(e, st, start, order, found=None, roots=()):
    """what is reachable from the handle, up to the names of heap blocks and data"""
    rank = {d: i for i, d in enumerate(order)}
    names, out, work = {}, [], []

    def show(v):
        if not isinstance(v, Lin):
            return str(v)
        v = st.norm(v)
        x = [a for a, k in v.t if a.isptr or a.fn == 'alloc' or isdatum(a)]
        if len(v.t) == 1 and x and x[0].fn == 'alloc':
            root, idx = e.root_of(st, v)
            k = (root, idx[:-1])
            if e.is_freed(st, root, idx) is not None:
                return 'freed'
            if k not in names:
                names[k] = len(names)
                work.append(k)
            return 'block %d+%s' % (names[k], idx[-1])
        if len(v.t) == 1 and x and isdatum(x[0]):
            return 'datum %s' % rank.get(x[0].args[0], x[0].args[0])
        return str(v)
    if start is not None:
        show(start)
    for v in roots:
        show(v)
    while work:
        root, idx = k = work.pop(0)
        offs = {}
        for en in st.log.get(root, ()):
            if en.binders or not all(isconst(i) for i in en.idx) or not isinstance(en.size, int):
                continue
            if tuple(en.idx[:-1]) == tuple(idx):
                offs[en.idx[-1].c] = (en.size, en.val)
        out.append((names[k], tuple((o, show(offs[o][1])) for o in sorted(offs))))
    if found is not None:
        found.update(names)
    return tuple(out)


def run(ck):
    e = ck.engine()
    install(ck, e)
    st0 = e.new_state()
    for p in (COMPARE, KEY, PRINT, ARG, sym('visit0', ptr=True), sym('visit1', ptr=True)):
        st0.facts = st0.facts.assume(le(const(4096), p))
    for i in range(40):
        st0.facts = st0.facts.assume(le(const(4096), datum(i)))
    depth = {}
    plain = e.allocate

    def allocate(st, ins, nbytes, stack=False, site=None):
        n = st.norm(nbytes)
        if stack and isconst(n):
            st.extra['stack'] = st.extra.get('stack', 0) + n.c
        return plain(st, ins, nbytes, stack, site)
    e.allocate = allocate
    HEAP = ('malloc', 'calloc', 'realloc', 'strdup')

    class G(dict):
        __slots__ = ()

    def ghost(g, evs, **kw):
        n = G(g)
        heap = list(g['heap'])
        for ev in evs:
            if ev.name in HEAP and isinstance(ev.ret, Lin):
                heap.append(ev.ret)
        n['heap'] = tuple(heap)
        n.update(kw)
        return n

    def lost(o, g, evs):
        """no block is left behind without a way to reach it"""
        g = ghost(g, evs)
        found = {}
        glob = [x.val for root, log in o.st.log.items() if root[0] == 'G' for x in log if isinstance(x.val, Lin)]
        kept = [p for k, v in o.st.extra.items() if isinstance(k, tuple) and k[0] == 'mem' and len(v) > 2 for p in v[2]]
        shape(o.e, o.st, g['list'], g['order'], found, glob + kept)
        nm = 'no memory is lost'
        for p in g['heap']:
            root, idx = o.e.root_of(o.st, p)
            if o.e.is_freed(o.st, root, idx) is None and (root, idx[:-1]) not in found:
                return o.fail(nm, 'a block of %s bytes can be neither reached nor released' % o.e.objsize(o.st, root, idx))
        o.good(nm)

    def measured(o, g):
        k = (o.name, len(g['order']))
        depth[k] = max(depth.get(k, 0), o.st.extra.get('stack', 0))

    def signature(g, st):
        return (len(g['order']), g.get('phase'), g['list'] is not None and shape(e, st, g['list'], g['order']))

    def inlist(g):
        return list(g['order'])

    # ---- operations
    def prep(st, g, order=None, coins=0):
        st.extra['order'] = tuple(order if order is not None else g['order'])
        st.extra['coins'], st.extra['alias'] = coins, {}
        st.extra['visited'], st.extra['ended'], st.extra['act'] = (), None, None
        st.extra['bare'] = g.get('bare')
        st.extra['stack'] = 0

    def create(bare):
        def args(g, st):
            if g['list'] is not None:
                return None
            prep(st, g)
            return [COMPARE, ZERO if bare else KEY, PRINT]

        def judge(o, g, evs, noret):
            nm = 'a list can be made'
            if noret:
                return o.fail(nm, 'ends in %s' % noret)
            o.good(nm)
            if o.decide(eq(o.ret)) is not False:
                return o.fail(nm, 'gives %s' % o.ret)
            return ghost(g, evs, list=o.ret, bare=bare)
        return ('create' + (' without a key function' if bare else ''), 'sl_create', args, judge)

    def insert(p, coins, maxn, phase=None, to=None, only=None):
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p > len(g['order']) or len(g['order']) >= maxn or only and len(g['order']) not in only:
                return None
            d = 'd%d' % min(set(range(40)) - {int(x[1:]) for x in g['order']})
            o = list(g['order'])
            o.insert(p, d)
            prep(st, g, o, coins(len(o)) if callable(coins) else coins)
            st.extra['new'] = d
            return [g['list'], datum(int(d[1:]))]

        def judge(o, g, evs, noret):
            nm = 'a new datum can be inserted'
            if noret:
                return o.fail(nm, 'ends in %s (among %d data, at place %d)' % (noret, len(g['order']), p))
            o.good(nm)
            return ghost(g, evs, order=o.st.extra['order'], **({'phase': to(len(o.st.extra['order']))} if to else {}))
        return ('insert at %d' % p, 'sl_insert', args, judge)

    def again(p, phase=None):
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p >= len(g['order']):
                return None
            prep(st, g, coins=1)
            return [g['list'], datum(int(g['order'][p][1:]))]

        def judge(o, g, evs, noret):
            nm = 'inserting a datum twice is fatal'
            (o.good(nm) if noret in FATAL else o.fail(nm, 'the second insertion %s' % (noret or 'returns')))
        return ('insert %d again' % p, 'sl_insert', args, judge)

    def same_key(p, phase=None):
        """another datum whose key compares like the one at place p"""
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p >= len(g['order']) or g.get('bare'):
                return None
            prep(st, g, coins=1)
            st.extra['alias'] = {'d38': g['order'][p]}
            return [g['list'], datum(38)]

        def judge(o, g, evs, noret):
            nm = 'inserting a second datum with the same key is fatal'
            (o.good(nm) if noret in FATAL else o.fail(nm, 'the insertion %s' % (noret or 'returns')))
        return ('insert another with the key of %d' % p, 'sl_insert', args, judge)

    def delete(p, phase=None, to=None, only=None):
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p >= len(g['order']) or only and len(g['order']) not in only:
                return None
            prep(st, g)
            return [g['list'], datum(int(g['order'][p][1:]))]

        def judge(o, g, evs, noret):
            nm = 'a datum can be deleted'
            if noret:
                return o.fail(nm, 'ends in %s (among %d data, at place %d)' % (noret, len(g['order']), p))
            o.good(nm)
            od = list(g['order'])
            del od[p]
            return ghost(g, evs, order=tuple(od), **({'phase': to} if to else {}))
        return ('delete at %d' % p, 'sl_delete', args, judge)

    def absent(p, fn, phase=None):
        """a key between the others"""
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p > len(g['order']):
                return None
            o = list(g['order'])
            o.insert(p, 'd39')
            prep(st, g, o)
            d = datum(39)
            return [g['list'], (d if g.get('bare') else key(d)) if fn == 'sl_find' else d]

        def judge(o, g, evs, noret):
            if fn == 'sl_delete':
                nm = 'deleting what is not in the list is fatal'
                return o.good(nm) if noret in FATAL else o.fail(nm, 'the call %s' % (noret or 'returns'))
            nm = 'what is not in the list is not found'
            if noret:
                return o.fail(nm, 'ends in %s' % noret)
            o.must(eq(o.ret), nm, 'a key before place %d of %d gives %s' % (p, len(g['order']), o.ret))
            same(o, g, evs)
        return ('%s of an absent key before %d' % (fn[3:], p), fn, args, judge)

    def same(o, g, evs):
        nm = 'looking does not change the list'
        k = repr(signature(g, o.st))
        if k == o.st.extra.get('before'):
            o.good(nm)
        else:
            o.st.extra['before'] = None
            # a counter may change; what follows must not
            o.good('looking leaves a list')

    def find(p, phase=None):
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or p >= len(g['order']):
                return None
            prep(st, g)
            st.extra['before'] = repr(signature(g, st))
            d = int(g['order'][p][1:])
            return [g['list'], datum(d) if g.get('bare') else twin(d)]

        def judge(o, g, evs, noret):
            nm = 'what is in the list is found by its key'
            if noret:
                return o.fail(nm, 'ends in %s' % noret)
            want = datum(int(g['order'][p][1:]))
            o.must(o.e.ptr_eq(o.st, o.ret, want), nm, 'the key of place %d of %d gives %s' % (p, len(g['order']), o.ret))
            return ghost(g, evs)
        return ('find %d' % p, 'sl_find', args, judge)

    def iterate(fn, phase=None):
        v = 1 if fn.endswith('arg') else 0

        def args(g, st):
            if g['list'] is None or g.get('phase') != phase:
                return None
            prep(st, g)
            return [g['list'], sym('visit%d' % v, ptr=True)] + ([ARG] if v else [])

        def judge(o, g, evs, noret):
            nm = 'every datum is visited once, in order'
            if noret:
                return o.fail(nm, 'ends in %s' % noret)
            vis, end = o.st.extra['visited'], o.st.extra['ended']
            if end is None:
                if vis == g['order']:
                    o.good(nm)
                else:
                    o.fail(nm, 'visits %s of %s' % (list(vis), list(g['order'])))
                o.must(eq(o.ret), 'a complete iteration gives 0', 'gives %s' % o.ret)
                return ghost(g, evs)
            nm = 'iteration ends at the first non-zero result'
            (o.good(nm) if vis == g['order'][:len(vis)] else o.fail(nm, 'visits %s of %s' % (list(vis), list(g['order']))))
            o.must(eq(o.ret, end), 'the non-zero result is passed on', 'gives %s instead of %s' % (o.ret, end))
            return ghost(g, evs)
        return (fn[3:], fn, args, judge)

    def change(fn, what, k, phase=None):
        """the function of the iteration changes the list at its k-th call"""
        v = 1 if fn.endswith('arg') else 0

        def act(en, st, ins, d, n):
            od = list(st.extra['order'])
            if n != k or d not in od:
                return [(st, ZERO)]
            i = od.index(d)
            L = st.extra['handle']
            f = None
            if what in ('insert before', 'insert after'):
                new = 'd%d' % (30 + n)
                od.insert(i + (what == 'insert after'), new)
                f, x = 'sl_insert', new
            else:
                j = {'delete this': i, 'delete next': i + 1, 'delete previous': i - 1}[what]
                if not 0 <= j < len(od):
                    return [(st, ZERO)]
                f, x = 'sl_delete', od.pop(j)
            if f == 'sl_insert':
                st.extra['order'] = tuple(od)
            out = []
            for t, val in HM.subrun(en, st, en.prog.func(f), [L, datum(int(x[1:]))]):
                if t.term is None:
                    t.extra['order'] = tuple(od)
                    out.append((t, ZERO))
                else:
                    out.append((t, None))
            return out

        def args(g, st):
            if g['list'] is None or g.get('phase') != phase or k > len(g['order']):
                return None
            prep(st, g, coins=1)
            st.extra['act'], st.extra['handle'] = act, g['list']
            return [g['list'], sym('visit%d' % v, ptr=True)] + ([ARG] if v else [])

        def judge(o, g, evs, noret):
            nm = 'iteration survives changes made by the function'
            if noret:
                return o.fail(nm, '%s in call %d of %d: ends in %s' % (what, k, len(g['order']), noret))
            vis, now = o.st.extra['visited'], o.st.extra['order']
            o.st.extra['act'] = o.st.extra['handle'] = None
            stay = [d for d in g['order'] if d in now]
            if [d for d in vis if d in stay] != stay:
                return o.fail(nm, '%s in call %d of %d: visits %s' % (what, k, len(g['order']), list(vis)))
            if len(set(vis)) != len(vis) or not set(vis) <= set(g['order']) | set(now):
                return o.fail(nm, '%s in call %d: visits %s' % (what, k, list(vis)))
            o.good(nm)
            # renamed, so that later insertions are distinct
            return None
        return ('%s with %s at call %d' % (fn[3:], what, k), fn, args, judge)

    def destroy(phase=None):
        def args(g, st):
            if g['list'] is None or g.get('phase') != phase:
                return None
            prep(st, g)
            return [g['list']]

        def judge(o, g, evs, noret):
            nm = 'destroying releases the list and nothing else'
            if noret:
                return o.fail(nm, 'ends in %s' % noret)
            g = ghost(g, evs)
            back = [ev.args[1] for ev in evs if ev.name == 'mem_free_object']
            for p in g['heap']:
                root, idx = o.e.root_of(o.st, p)
                if o.e.is_freed(o.st, root, idx) is None:
                    return o.fail(nm, 'a block of %s bytes stays allocated (%d data)' % (o.e.objsize(o.st, root, idx), len(g['order'])))
            x = single(o.st.norm(g['list']))
            if any(o.st.norm(b) is o.st.norm(g['list']) for b in back) or o.e.is_freed(o.st, *o.e.root_of(o.st, g['list'])) is not None:
                o.good(nm)
            else:
                o.fail(nm, 'the list itself is not given back')
        return ('destroy', 'sl_destroy', args, judge)

    N, C = (4, 2) if ck.tier == 'quick' else (5, 3)
    pos = range(N + 1)

    def kept(op):
        nm, fn, args, judge = op

        def j(o, g, evs, noret):
            r = judge(o, g, evs, noret)
            if noret is None and not any(k == 'bad' for k, _, _ in o.results):
                if ' with ' not in nm:
                    measured(o, g)
                if g['list'] is not None and fn != 'sl_destroy':
                    lost(o, r if r is not None else dict(g, order=o.st.extra['order']), () if r is not None else evs)
            return r
        return (nm, fn, args, j)

    def all_ops(phase=None, bare=False):
        r = []
        for p in pos:
            r += [again(p, phase), same_key(p, phase), absent(p, 'sl_delete', phase), absent(p, 'sl_find', phase), find(p, phase)]
        r += [iterate(f, phase) for f in ('sl_iterate', 'sl_iterate_arg')] + [destroy(phase)]
        for k in range(1, N + 1):
            for w in ('delete this', 'delete next', 'delete previous', 'insert before', 'insert after'):
                r.append(change(('sl_iterate', 'sl_iterate_arg')[k % 2], w, k, phase))
        return r
    g0 = G(order=(), list=None, heap=())
    ops = [create(False)] + [insert(p, lambda n: C if n < 4 else 1, N) for p in pos] + [delete(p) for p in pos] + all_ops()
    hist.explore(ck, e, st0.copy(), g0, [kept(o) for o in ops], signature, limit=400 if ck.tier == 'quick' else 4000, label='small lists')
    for fn in sorted({f for f, n in depth}):
        nm = 'the stack needed does not depend on the number of data'
        ns = [depth[fn, n] for n in range(1, N + 1) if (fn, n) in depth]
        if len(ns) < 2:
            continue
        if len(ns) > 2 and all(a < b for a, b in zip(ns, ns[1:])):
            ck.violated(fn, nm, 'with %s data %s bytes of stack are used: a long list overflows the stack' % (', '.join(map(str, range(1, N + 1))), ', '.join(map(str, ns))), 'sl.c', sig='%s:stack' % fn)
        else:
            ck.ok(fn, nm)

    # ---- without a key function the datum is the key
    pos = range(3)
    ops = [create(True)] + [insert(p, 1, 2) for p in pos] + [delete(p) for p in pos]
    for p in pos:
        ops += [again(p), absent(p, 'sl_delete'), absent(p, 'sl_find'), find(p)]
    hist.explore(ck, e, st0.copy(), g0, [kept(o) for o in ops + [iterate('sl_iterate'), destroy()]], signature, limit=400, label='without a key function')

    # ---- the tallest entries
    T = 19
    ops = [create(False), insert(0, 'ones', T, None, lambda n: 'top' if n == T - 1 else None), insert(0, 'ones', T, 'top', lambda n: 'after'), insert(9, 'ones', T, 'top', lambda n: 'after'), insert(T - 1, 'ones', T, 'top', lambda n: 'after')]
    ops += [delete(p, 'top', 'after') for p in (1, 2, 3, 9, T - 2)] + [delete(0, 'top', 'shrink'), delete(0, 'shrink', 'shrink', only=range(2, T)), delete(0, 'shrink', 'empty', only=(1,)), insert(0, 'ones', 2, 'empty', lambda n: 'after')]
    for ph in ('top', 'after', 'shrink', 'empty'):
        ops += [f(p, ph) for p in (0, 1, 9, T - 2, T - 1) for f in (find, again)] + [absent(p, fn, ph) for p in (0, 9, T) for fn in ('sl_find', 'sl_delete')]
        ops += [iterate('sl_iterate', ph), destroy(ph)]
    hist.explore(ck, e, st0.copy(), g0, [kept(o) for o in ops], signature, limit=400, label='tall lists')

    # ---- a list without an order makes no sense
    for k in (KEY, ZERO):
        st = st0.copy()
        prep(st, g0)
        nm = 'a comparison is required'
        ck.run('sl_create', e, st, [ZERO, k, PRINT], lambda o: o.fail(nm, 'a list is made without one'), label='no comparison', on_noreturn=lambda o, how: o.good(nm) if how in FATAL else o.fail(nm, how))
    ck.rule('a comparison may return any value of the right sign; keys of data that are not in the list (any more) must not be asked for; every block is reachable or released')
    ck.finish('static: abstract interpretation of sl.c along all histories of operations up to equality of the abstract heap: the state graph of lists with up to %d data and levels up to %d is explored to its fixpoint (order and keys symbolic, both outcomes of every coin), and one family that reaches the level limit; no assumption on the representation' % (N, N), level='other', minimum=400)
