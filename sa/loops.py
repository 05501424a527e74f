"""Loop summarisation: parametric invariants by anti-unification of the first
iterations, checked inductive on a generic iteration; otherwise havoc."""
from terms import *
from facts import Facts
from eng import *
from terms import _anyptr
from eng import Entry, Ev, EvFor, EvIf, State, GiveUp, NeedSplit, Unresolved
import itertools

_ids = itertools.count()


class NoGen(Exception):
    pass


# ------------------------------------------------------------------ merging
def merge(eng, base, backs):
    """merge back-edge states of one iteration into one"""
    if len(backs) == 1:
        return backs[0]
    p0 = len(base.path)

    def rec(sts, pos):
        if len(sts) == 1:
            return sts[0]
        while True:
            items = [x.path[p0 + pos] if len(x.path) > p0 + pos else None for x in sts]
            if all(i == items[0] for i in items) and items[0] is not None:
                pos += 1
                continue
            break
        c = next(i for i in items if i is not None)
        A = [x for x, i in zip(sts, items) if i == c]
        B = [x for x, i in zip(sts, items) if i != c]
        if not B:
            raise NoGen('identical paths')
        return combine(eng, base, rec(A, pos), rec(B, pos), c)
    r = rec(backs, 0)
    return r


def combine(eng, base, A, B, c):
    st = A.copy()
    # facts: base + common path conditions
    common = [x for x in A.path[len(base.path):] if x in B.path[len(base.path):]]
    f = base.facts
    for x in common:
        f2 = f.assume(x)
        if f2 is None:
            raise NoGen('merge facts')
        f = f2
    # what each side learnt, as one disjunction
    oa = [x for x in A.path[len(base.path):] if x not in common]
    ob = [x for x in B.path[len(base.path):] if x not in common]
    # what one side learnt may follow from what the other side knows
    for x in [x for x in ob if A.decide(x) is True] + [x for x in oa if B.decide(x) is True]:
        f2 = f.assume(x)
        if f2 is not None:
            f = f2
            common.append(x)
    oa = [x for x in oa if x not in common]
    ob = [x for x in ob if x not in common]
    if 0 < len(oa) <= 3 and 0 < len(ob) <= 3:
        d = either(conj(*oa), conj(*ob))
        if isinstance(d, tuple) and d[0] == 'or' and all(x[0] in ('le', 'eq', 'ne') for x in d[1]):
            f2 = f.assume(d)
            if f2 is not None:
                f = f2
                common.append(d)
    # what both sides know of the values that neither path condition names (invariants of inner loops)
    for X, Y in ((A.facts, B.facts), (B.facts, A.facts)):
        for a, v in X.sub.items():
            if a not in f.sub and a not in base.facts.sub and Y.norm(a.lin) is Y.norm(v):
                f = f.assume(eq(a.lin, v)) or f
    known = set(f.les)
    bl = set(B.facts.les)
    for l in A.facts.les:
        if l in bl and l not in known:
            f = f.assume(le(l)) or f
    # keep quantified facts known on both sides
    extra = [q for q in A.facts.foralls if q in B.facts.foralls and q not in f.foralls]
    for q in extra:
        f = f.with_forall(*q)
    st.facts = f
    st.path = base.path + tuple(common)
    st.taint = A.taint + tuple(t for t in B.taint if t not in A.taint)
    st.errs = A.errs + tuple(t for t in B.errs if t not in A.errs)

    def mv(a, b):
        if a is b:
            return a
        if isinstance(a, Lin) and isinstance(b, Lin):
            a, b = A.norm(a), B.norm(b)
            if a is b:
                return a
            if A.norm(b) is A.norm(a):
                return b
            if B.norm(a) is B.norm(b):
                return a
            return ite(c, a, b)
        if iscond(a) and iscond(b):
            return disj(conj(c, a), conj(neg(c), b))
        if a == b:
            return a
        raise NoGen('merge value')
    for fa, fb, fs in zip(A.frames, B.frames, st.frames):
        for k in fs.env:
            if k == '...':
                continue
            va, vb = fa.env.get(k), fb.env.get(k)
            if vb is None:
                continue
            if va is not vb:
                try:
                    fs.env[k] = mv(va, vb)
                except NoGen:
                    if va != vb:
                        fs.env[k] = va   # dead aggregate
    for k in set(A.ctr) | set(B.ctr):
        st.ctr[k] = mv(A.ctr.get(k, ZERO), B.ctr.get(k, ZERO))
    for root in set(A.log) | set(B.log):
        la, lb = A.log.get(root, ()), B.log.get(root, ())
        if la == lb:
            st.log[root] = la
            continue
        keep = [e for e in la if e in lb]
        ra = [e.map(A.norm) for e in la if e not in keep]
        rb = [e.map(B.norm) for e in lb if e not in keep]
        res = list(keep)
        usedb = set()
        for e in ra:
            o = None
            for i, g in enumerate(rb):
                if i not in usedb and g.binders == e.binders and g.guard == e.guard and g.idx == e.idx and g.size == e.size:
                    o = i
                    break
            if o is not None:
                usedb.add(o)
                g = rb[o]
                if isinstance(e.val, Lin) and isinstance(g.val, Lin):
                    res.append(Entry(e.binders, e.guard, e.idx, e.size, mv(e.val, g.val), e.loc))
                    continue
                if e.val == g.val:
                    res.append(e)
                    continue
                res.append(addguard(e, c))
                res.append(addguard(g, neg(c)))
                continue
            res.append(one_sided(eng, base, B, root, e, c, True))
        for i, g in enumerate(rb):
            if i not in usedb:
                res.append(one_sided(eng, base, A, root, g, c, False))
        st.log[root] = tuple(res)
    for root in set(A.freed) | set(B.freed):
        la, lb = A.freed.get(root, ()), B.freed.get(root, ())
        keep = [e for e in la if e in lb]
        st.freed[root] = tuple(keep) + tuple(addguard(e.map(A.norm), c) for e in la if e not in keep) + tuple(addguard(e.map(B.norm), neg(c)) for e in lb if e not in keep)
    n = 0
    while n < len(A.events) and n < len(B.events) and A.events[n] is B.events[n]:
        n += 1
    ea, eb = tuple(e.map(A.norm) for e in A.events[n:]), tuple(e.map(B.norm) for e in B.events[n:])
    if [x.key() for x in ea] == [x.key() for x in eb]:
        st.events = A.events
    else:
        st.events = A.events[:n] + (EvIf(c, ea, eb),)
    st.extra = dict(A.extra)
    return st


def either(a, b):
    """a or b, using (c and x) or (not c and y) with y trivial = (not c) or x"""
    la = list(a[1]) if isinstance(a, tuple) and a[0] == 'and' else [a]
    lb = list(b[1]) if isinstance(b, tuple) and b[0] == 'and' else [b]
    for x in list(la):
        if neg(x) in lb:
            if len(la) == 1:
                return disj(x, *[conj(*[y for y in lb if y != neg(x)])]) if len(lb) > 1 else True
            if len(lb) == 1:
                return disj(neg(x), conj(*[y for y in la if y != x]))
    return disj(a, b)


def iscond(x):
    return x is True or x is False or (isinstance(x, tuple) and len(x) > 0 and x[0] in ('le', 'eq', 'ne', 'and', 'or'))


def addguard(e, c):
    # a range that is empty whenever the guard fails needs no guard
    if e.binders and c is not True:
        for v, lo, hi in e.binders:
            nc = neg(c)
            f = Facts().assume(nc) if nc is not False else None
            if f is not None and f.decide(le(hi, lo)) is True:
                return e
    return Entry(e.binders, conj(e.guard, c), e.idx, e.size, e.val, e.loc)


def one_sided(eng, base, other, root, e, c, pos):
    cc = c if pos else neg(c)
    if not e.binders and e.guard is True and isinstance(e.val, Lin) and not isinstance(e.size, Lin):
        try:
            old = eng.read_at(other.copy(), root, e.idx, e.size, None)
            if not any(a.fn in ('undef', 'hv') for a in deep_atoms(old)):
                if ('ptrcell', root) is not None:
                    return Entry((), True, e.idx, e.size, ite(cc, e.val, old), e.loc)
        except (NeedSplit, Unresolved, GiveUp):
            pass
    return addguard(e, cc)


# ------------------------------------------------------------------ anti-unification
def au(vals, m, acc=True):
    """vals at m=0,1(,2): a term t(m) with t(k)==vals[k]; m is an Atom. raises NoGen"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if isinstance(v0, Lin):
        if not all(isinstance(v, Lin) for v in vals):
            raise NoGen()
        ds = [sub(vals[i + 1], vals[i]) for i in range(len(vals) - 1)]
        if all(d is ds[0] for d in ds):
            d = ds[0]
            if not d.t:
                return add(v0, mul(m.lin, d.c))
            # symbolic constant step
            t = v0
            ok = True
            # prefer structural generalisation of atoms when possible
            try:
                return au_atoms(vals, m)
            except NoGen:
                pass
            if ok:
                if any(a.fn not in ('sym', 'mem', 'gmem', 'n', 'strlen', 'ret') for a, _ in d.t):
                    pass
                r = v0
                for a, k in d.t:
                    r = add(r, app('mul', *sorted((m.lin, a.lin), key=lambda x: x.id)), k)
                return add(r, mul(m.lin, d.c))
        try:
            return au_atoms(vals, m)
        except NoGen:
            pass
        # accumulator: differences generalise
        if acc and len(ds) >= 2 and not any(_anyptr(v) for v in vals):
            j = atom('sym', 'j!%d' % next(_ids))
            body = au(ds, j, False)
            return add(v0, psum(j, body, m.lin))
        raise NoGen()
    if isinstance(v0, Atom):
        if not all(isinstance(v, Atom) and v.fn == v0.fn and len(v.args) == len(v0.args) for v in vals) or v0.fn == 'sym':
            raise NoGen()
        args = tuple(au([v.args[i] for v in vals], m) for i in range(len(v0.args)))
        a = atom(v0.fn, *args, ptr=v0.isptr or None)
        a.rng = v0.rng if all(v.rng == v0.rng for v in vals) else a.rng
        return a
    if isinstance(v0, tuple):
        if not all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
            raise NoGen()
        if v0 and v0[0] in ('le', 'eq', 'ne'):
            if not all(v[0] == v0[0] for v in vals):
                raise NoGen()
            l = au([v[1] for v in vals], m)
            return (v0[0], l)
        return tuple(au([v[i] for v in vals], m) for i in range(len(v0)))
    if isinstance(v0, (Entry, Ev)):
        return v0
    if all(v == v0 for v in vals):
        return v0
    raise NoGen()


def au_atoms(vals, m):
    """match the atoms of each Lin pairwise by head and coefficient"""
    n = len(vals)
    c = au_const([v.c for v in vals], m)
    groups = [list(v.t) for v in vals]
    if len({len(g) for g in groups}) != 1:
        raise NoGen()
    r = c
    rest = [list(g) for g in groups]
    # identical atoms first
    for a, k in groups[0]:
        if all((a, k) in g for g in rest):
            r = add(r, a.lin, k)
            for g in rest:
                g.remove((a, k))
    while rest[0]:
        a, k = rest[0][0]
        pick = [(a, k)]
        for g in rest[1:]:
            cand = [x for x in g if x[1] == k and x[0].fn == a.fn]
            if not cand:
                raise NoGen()
            # the closest candidate in position
            pick.append(cand[0])
        t = au([p[0] for p in pick], m)
        r = add(r, t.lin, k)
        for g, p in zip(rest, pick):
            g.remove(p)
    return r


def au_const(cs, m):
    d = cs[1] - cs[0]
    for i in range(len(cs) - 1):
        if cs[i + 1] - cs[i] != d:
            raise NoGen()
    return add(const(cs[0]), mul(m.lin, d))


def au_entry(es, m):
    e0 = es[0]
    if any(e.size != e0.size and not isinstance(e.size, Lin) for e in es) or any(len(e.binders) != len(e0.binders) or len(e.idx) != len(e0.idx) for e in es):
        raise NoGen()
    es = [align_binders(e, e0) for e in es]
    binders = tuple((e0.binders[i][0], au([e.binders[i][1] for e in es], m), au([e.binders[i][2] for e in es], m)) for i in range(len(e0.binders)))
    guard = au([e.guard for e in es], m) if not all(e.guard is True for e in es) else True
    idx = tuple(au([e.idx[i] for e in es], m) for i in range(len(e0.idx)))
    size = au([e.size for e in es], m) if isinstance(e0.size, Lin) else e0.size
    val = au([e.val for e in es], m) if e0.val is not None else None
    return Entry(binders, guard, idx, size, val, e0.loc)


def align_binders(e, e0):
    if not e.binders or all(a[0] is b[0] for a, b in zip(e.binders, e0.binders)):
        return e
    mp = {a[0]: b[0].lin for a, b in zip(e.binders, e0.binders)}
    f = lambda x: subst(x, mp)
    return Entry(tuple((b[0], f(lo), f(hi)) for (a, lo, hi), b in zip(e.binders, e0.binders)), f(e.guard) if e.guard is not True else True,
                 tuple(f(i) for i in e.idx), f(e.size) if isinstance(e.size, Lin) else e.size, f(e.val) if e.val is not None else None, e.loc)


def au_ev(xs, m):
    x0 = xs[0]
    if not all(type(x) is type(x0) for x in xs):
        raise NoGen()
    if isinstance(x0, Ev):
        if not all(x.name == x0.name and len(x.args) == len(x0.args) for x in xs):
            raise NoGen()
        return Ev(x0.name, tuple(au([x.args[i] for x in xs], m) for i in range(len(x0.args))), au([x.ret for x in xs], m) if x0.ret is not None else None, x0.loc, x0.stack)
    if isinstance(x0, EvFor):
        xs = [x0] + [x.map(lambda t, v=x.var: subst(t, {v: x0.var.lin})) if x.var is not x0.var else x for x in xs[1:]]
        return EvFor(x0.var, au([x.lo for x in xs], m), au([x.hi for x in xs], m), au_evs([x.body for x in xs], m))
    return EvIf(au([x.cond for x in xs], m), au_evs([x.a for x in xs], m), au_evs([x.b for x in xs], m))


def au_evs(ls, m):
    if len({len(l) for l in ls}) != 1:
        raise NoGen()
    return tuple(au_ev([l[i] for l in ls], m) for i in range(len(ls[0])))


# ------------------------------------------------------------------ summarise
def flags(st, func, L):
    return (c for c in flags0(st, func, L) if st.decide(c) is None)


def flags0(st, func, L):
    """conditions on which a header variable of the loop takes one of two constants"""
    env = st.frames[-1].env
    for ph in func.blocks[L.header].phis:
        v = env.get(ph.res)
        x = single(st.norm(v)) if isinstance(v, Lin) else None
        if x is not None and x.fn == 'b2i' and isinstance(x.args[0], tuple):
            yield x.args[0]
        elif x is not None and x.fn == 'ite' and all(isconst(y) or (single(y) is not None and single(y).fn in ('b2i', 'ite')) for y in x.args[1:]):
            yield x.args[0]


def iteration(eng, st, depth, func, L, eager):
    """one iteration; eager: a way back to the header that can only leave the loop there is a way out"""
    backs, exits, done = eng.explore(st, depth, (func, L))
    if not eager:
        return backs, exits, done
    todo, backs = list(backs), []
    while todo:
        b = todo.pop(0)
        c = next(flags(b, func, L), None)
        if c is None:
            backs.append(b)
            continue
        b1, b2 = b, b.copy()
        if b1.assume(c):
            todo.append(b1)
        if b2.assume(neg(c)):
            todo.append(b2)
        if len(todo) + len(backs) > 32:
            backs += todo
            break
    keep = []
    for b in backs:
        bb, ee, dd = eng.explore(b.copy(), depth, (func, L)) if len(backs) > 1 else ((1,), (), ())
        if bb:
            keep.append(b)
        else:
            exits = exits + ee
            done = done + dd
    return keep, exits, done


class Flagged(Exception):
    pass


def summarise(eng, st, L):
    depth = len(st.frames)
    func = st.frames[-1].f
    eng.stats['loops'] += 1
    if getattr(eng, 'pathwise', 0):
        return pathwise(eng, st, L, depth, func)
    nm = loopname(func, L)
    fails = eng.__dict__.setdefault('loopfails', {})
    if getattr(eng, 'impatient', 0) and fails.get(nm, 0) >= eng.impatient:
        # this loop has never had an invariant
        hist, err = [st], None
        try:
            hist.append(merge(eng, st, eng.explore(st.copy(), depth, (func, L))[0]))
        except (NoGen, IndexError):
            pass
        eng.stats['loops_havoc'] += 1
        return partition(eng, st, L, depth, func, hist, err)
    try:
        r, hist, err, multi = attempt(eng, st, L, depth, func, None)
    except Flagged:
        r, hist, err, multi = attempt(eng, st, L, depth, func, True)
        if r is None:
            r, hist, err, multi = attempt(eng, st, L, depth, func, False)
    if r is not None:
        fails[nm] = -1000000
        return r
    fails[nm] = fails.get(nm, 0) + 1
    eng.stats['loops_havoc'] += 1
    return partition(eng, st, L, depth, func, hist, err)


def attempt(eng, st, L, depth, func, eager):
    hist = [st]
    multi = False
    exits_acc, done_acc = [], []
    runs = []
    k = 0
    err = None
    while True:
        backs, exits, done = iteration(eng, hist[-1].copy(), depth, func, L, eager)
        multi = multi or len(backs) > 1
        runs.append((exits, done))
        if not backs:
            for e, d in runs:
                exits_acc += e
                done_acc += d
            eng.stats['loops_exact'] += 1
            return (exits_acc, done_acc), hist, err, multi
        try:
            hist.append(merge(eng, hist[-1], backs))
            if eager is None and next(flags(hist[-1], func, L), None) is not None:
                raise Flagged()
        except NoGen as e:
            err = 'merge: %s' % e
            break
        k += 1
        if not any(r[0] for r in runs):
            # no way out so far
            if k < eng.MAXUNROLL:
                continue
        if k < getattr(eng, 'unroll', 0):
            continue
        if k >= 3:
            r = try_general(eng, hist[0], hist[0:4], L, depth, func, [], k == 3, eager)
            if r is not None:
                return r, hist, err, multi
            if k >= 4:
                r = try_general(eng, hist[1], hist[1:5], L, depth, func, runs[:1], False, eager)
                if r is not None:
                    return r, hist, err, multi
                break
    return None, hist, err, multi


def pathwise(eng, st, L, depth, func):
    """every way through every iteration; the models end the paths that reach nothing new"""
    ex, dn, cur = [], [], [st]
    for k in range(eng.pathwise):
        nxt = []
        for x in cur:
            b, e, d = eng.explore(x.copy(), depth, (func, L))
            ex += e
            dn += d
            nxt += b
        hook = getattr(eng, 'backhook', None)
        cur = [x for x in nxt if hook(x, L)] if hook else nxt
        if not cur:
            eng.stats['loops_exact'] += 1
            return ex, dn
        if len(cur) > 2000:
            break
    for x in cur:
        x.term = 'giveup:more than %d iterations' % eng.pathwise
        dn.append(x)
    return ex, dn


PREFIX = 3


def partition(eng, st, L, depth, func, hist, err):
    """no invariant found: the first iterations are kept apart, path by path
    (trace partitioning), the remaining ones are abstracted to 'anything'."""
    ex, dn = [], []
    cur = [st]
    more = False
    lim = 1 if getattr(eng, 'part_nest', 0) else getattr(eng, 'prefix', PREFIX)
    eng.part_nest = getattr(eng, 'part_nest', 0) + 1
    try:
        for k in range(lim + 1):
            nxt = []
            for x in cur:
                b, e, d = eng.explore(x.copy(), depth, (func, L))
                ex += e
                dn += d
                nxt += b
            cur = nxt
            if not cur:
                return ex, dn
            if len(cur) > 24:
                break
        h = hist if len(hist) > 1 else hist + cur[:1]
        e2, d2 = havoc_loop(eng, st, L, depth, func, h, err)
    finally:
        eng.part_nest -= 1
    return ex + e2, dn + d2


def loopname(func, L):
    return '%s/%s' % (func.key, L.header)


FIRST = object()


def au_first(vs, m):
    """template, possibly with a special value at m=0: (FIRST, v0, t)"""
    try:
        return au(vs, m)
    except NoGen:
        t = au(vs[1:], m)           # fits m=1,2,..  -> shift
        if isinstance(t, (bool, str)):
            raise
        t = subst(t, {m: add(m.lin, const(-1))}) if m in deep_atoms(t) else t
        return (FIRST, vs[0], t)


def tpl(v, at, m, atzero=None):
    """instantiate a template at iteration `at` (Lin)"""
    if isinstance(v, tuple) and len(v) == 3 and v[0] is FIRST:
        t = subst(v[2], {m: at})
        z = eq(at)
        if isconst(at):
            return v[1] if at.c == 0 else t
        if dict(at.t).get(m) == 1 and at.c > 0:
            return t
        if iscond(t):
            return disj(conj(z, v[1]), conj(neg(z), t))
        return ite(z, v[1], t)
    return subst(v, {m: at}) if not isinstance(v, bool) else v


def gen_state(eng, S, m, L, weak_ok):
    """S: consecutive header states. Returns the template parts of G"""
    fr0 = S[0].frames[-1]
    func = fr0.f
    weak = []
    phis = {}
    for ph in func.blocks[L.header].phis:
        vs = [x.norm(x.frames[-1].env[ph.res]) for x in S]
        try:
            phis[ph.res] = au_first(vs, m)
        except NoGen:
            if not weak_ok:
                raise NoGen('phi %s: %s' % (ph.res, [show(v) for v in vs]))
            weak.append(ph.res)
            phis[ph.res] = None
    ctr = {}
    for key in set().union(*[x.ctr for x in S]):
        vs = [x.norm(x.ctr.get(key, ZERO)) for x in S]
        ctr[key] = au(vs, m)
    j = atom('sym', 'j!%d' % next(_ids))
    logs = {}
    for root in set().union(*[x.log for x in S]):
        logs[root] = gen_log(eng, S, root, 'log', m, j, weak_ok)
    freed = {}
    for root in set().union(*[x.freed for x in S]):
        freed[root] = gen_log(eng, S, root, 'freed', m, j, weak_ok)
    ws = []
    for a, b in zip(S, S[1:]):
        n = len(a.events)
        if b.events[:n] != a.events:
            raise NoGen('events')
        ws.append(tuple(e.map(b.norm) for e in b.events[n:]))
    evs = au_evs(ws, j)
    return phis, weak, ctr, logs, freed, evs, j


def gen_log(eng, S, root, which, m, j, weak_ok):
    """returns (kept, scalars ((idx,size,template,loc)..), templates [Entry at j])"""
    L = [getattr(x, which).get(root, ()) for x in S]
    if all(l == L[0] for l in L):
        return (L[0], (), ())
    kept = [e for e in L[0] if all(e in l for l in L[1:])]
    R = [[e for e in l if e not in kept] for l in L]
    gone0 = R[0]
    if which == 'freed':
        if gone0:
            raise NoGen('freed')
        W = [[e for e in R[i] if e not in R[i - 1]] for i in range(1, len(S))]
        if len({len(w) for w in W}) != 1:
            raise NoGen('freed')
        return (tuple(kept), (), tuple(au_entry([x.map(S[i + 1].norm) for i, x in enumerate(xs)], j) for xs in zip(*W)))
    # scalar cells: point entries whose address is the same in all later states
    sc = []
    used = [set() for _ in S]
    for e in R[1]:
        if e.binders or e.guard is not True:
            continue
        ei = tuple(S[1].norm(i) for i in e.idx)
        os = [e]
        for q in range(2, len(S)):
            o = next((g for g in R[q] if not g.binders and g.guard is True and g.size == e.size and (g.idx == e.idx or tuple(S[q].norm(i) for i in g.idx) == ei)), None)
            if o is None:
                break
            os.append(o)
        if len(os) < len(S) - 1 or all(o is e for o in os):
            continue
        v0 = None
        for g in gone0:
            if not g.binders and g.idx == e.idx and g.size == e.size and g.guard is True:
                v0 = g.val
        if v0 is None:
            try:
                v0 = eng.read_at(S[0].copy(), root, e.idx, e.size, ptrhint(e.val))
            except (NeedSplit, Unresolved, GiveUp):
                raise NoGen('scalar read')
        for q, o in enumerate(os):
            used[q + 1].add(id(o))
        vs = [S[0].norm(v0)] + [S[q + 1].norm(o.val) for q, o in enumerate(os)]
        if not all(isinstance(v, Lin) for v in vs):
            raise NoGen('scalar kind')
        try:
            sc.append((e.idx, e.size, au_first(vs, m), e.loc))
        except NoGen:
            if not weak_ok:
                raise NoGen('cell %s %s: %s' % (root, e.idx, [show(v) for v in vs]))
            sc.append((e.idx, e.size, None, e.loc))
    for g in gone0:
        if not any(g.idx == x[0] and g.size == x[1] for x in sc):
            raise NoGen('log entry lost')
    W = []
    prev = set()
    for q in range(1, len(S)):
        w = [e for e in R[q] if id(e) not in used[q] and id(e) not in prev and not any(e == x for x in ())]
        prev |= {id(e) for e in R[q]}
        W.append(w)
    if len({len(w) for w in W}) != 1:
        raise NoGen('log length %s %s' % (root, [len(w) for w in W]))
    ts = tuple(au_entry([x.map(S[i + 1].norm) for i, x in enumerate(xs)], j) for xs in zip(*W))
    return (tuple(kept), tuple(sc), ts)


def ptrhint(v):
    import ir
    return ir.PTR if isinstance(v, Lin) and any(a.isptr for a, _ in v.t) else None


def close_entry(e, j, hi):
    """forall j in [0,hi): e"""
    return Entry(((j, ZERO, hi),) + e.binders, e.guard, e.idx, e.size, e.val, e.loc)


def build(eng, base, parts, at, facts, hv):
    """the header state after `at` iterations"""
    phis, weak, ctr, logs, freed, evs, j = parts
    G = base.copy()
    G.facts = facts
    fr = G.frames[-1]
    m = parts_m(parts)
    mp = {m: at} if at is not m.lin else None
    f = (lambda x: subst(x, mp)) if mp else (lambda x: x)
    for k, v in phis.items():
        fr.env[k] = hv(('phi', k)) if v is None else tpl(v, at, m)
    for k, v in ctr.items():
        G.ctr[k] = f(v)
    for root, (kept, sc, ts) in logs.items():
        out = list(kept)
        for t in ts:
            out.append(close_entry(t, j, at))
        for idx, size, v, loc in sc:
            v = hv(('cell', root, idx)) if v is None else tpl(v, at, m)
            out.append(Entry((), True, idx, size, v, loc))
        G.log[root] = tuple(out)
    for root, (kept, sc, ts) in freed.items():
        G.freed[root] = tuple(kept) + tuple(close_entry(t, j, at) for t in ts)
    if evs:
        G.events = base.events + (EvFor(j, ZERO, at, evs),)
    return G


_pm = {}


def parts_m(parts):
    return _pm[id(parts)]


def try_general(eng, base, S, L, depth, func, peeled, strict=False, eager=False):
    mid = next(_ids)
    m = atom('sym', 'm!%d' % mid, rng=(0, None))
    try:
        parts = gen_state(eng, S, m, L, not strict)
    except NoGen as e:
        if eng.trace:
            print('   nogen', loopname(func, L), e)
        return None
    _pm[id(parts)] = m
    # candidate facts: conditions of iterations 1 and 2 generalised, checked at iteration 0
    f = base.facts
    d1, d2 = S[2].path[len(S[1].path):], S[3].path[len(S[2].path):]
    cands = []
    j = atom('sym', 'j!%d' % next(_ids))
    flat = lambda ds: [x for c in ds if isinstance(c, tuple) for x in (c[1] if c[0] == 'and' else (c,))]
    for x in flat(d1):
        for y in flat(d2):
            if x[0] != y[0]:
                continue
            try:
                t = au([x, y], j)
            except NoGen:
                continue
            t = subst(t, {j: add(j.lin, const(-1))})
            if not isinstance(t, tuple):
                continue
            if S[1].decide(subst(t, {j: ZERO})) is True:
                cands.append(t)
                break
    cands = list(dict.fromkeys(cands))
    fall = [c for c in cands]
    # what the first iteration needed in order to continue holds whenever there was an iteration at all
    firsts = []
    at0 = {x for c in cands for x in [subst(c, {j: ZERO})]}
    for x in flat(S[1].path[len(S[0].path):]):
        if x not in at0 and x[0] in ('le', 'ne', 'eq') and base.decide(x) is None:
            firsts.append(disj(le(m.lin, ZERO), x))
    for attempt in range(4):
        facts = f
        for x in firsts:
            facts = facts.assume(x) or facts
        used = []
        lins = []
        for c in fall:
            if j not in deep_atoms(c):
                # loop-invariant condition that held in every iteration
                if base.decide(c) is True:
                    continue
                used.append(('all', c))
                facts = facts.with_forall(j, ZERO, m.lin, c)
                continue
            facts = facts.with_forall(j, ZERO, m.lin, c)
            used.append(('all', c))
            if c[0] == 'le':
                a = dict(c[1].t).get(j, 0)
                rest = sub(c[1], mul(j.lin, a))
                if a > 0 and j not in deep_atoms(rest):
                    g = le(subst(c[1], {j: add(m.lin, const(-1))}))
                    g0 = subst(g, {m: ZERO}) if not isinstance(g, bool) else g
                    if base.decide(g0) is True:
                        lins.append(g)
        # `i != n` style guards: m moves towards a bound by one, hence m <= bound
        for c in fall:
            if c[0] == 'ne' and j in deep_atoms(c):
                a = dict(c[1].t).get(j, 0)
                rest = sub(c[1], mul(j.lin, a))
                if a in (1, -1) and j not in deep_atoms(rest):
                    bound = mul(rest, -a)          # j != bound
                    if base.decide(le(ZERO, bound)) is True:
                        lins.append(le(m.lin, bound))
        # a walk over the characters of a text that stops at the NUL never passes it
        for c in fall:
            if c[0] == 'ne' and len(c[1].t) == 1 and c[1].c == 0 and c[1].t[0][0].fn == 'char':
                T, i = c[1].t[0][0].args
                rest = sub(i, j.lin)
                end = app('strlen', T)
                if j not in deep_atoms(rest) and j not in deep_atoms(end) and base.decide(conj(le(ZERO, rest), le(rest, end))) is True:
                    lins.append(le(add(rest, m.lin), end))
        for g in lins:
            f2 = facts.assume(g)
            if f2 is None:
                return None
            facts = f2
        G = build(eng, base, parts, m.lin, facts, lambda k: havoc_val(eng, L, func, k, m.lin, parts, base))
        try:
            backs, exits, done = iteration(eng, G.copy(), depth, func, L, eager)
            if not backs:
                nxt = None
            else:
                nxt = merge(eng, G, backs)
        except NoGen as e:
            if eng.trace:
                print('   merge fail', e)
            return None
        if nxt is None:
            # the generic iteration never continues: exact (at most this many iterations) -- treat as no generalisation
            return None
        bad, dropped = verify(eng, G, nxt, base, parts, m, L, func, fall, j)
        if eng.trace:
            print('   loop', loopname(func, L), 'cands', [showc(c) for c in fall], 'bad', bad, 'dropped', [showc(c) for c in dropped])
        if dropped:
            fall = [c for c in fall if c not in dropped]
            if not bad or bad == ['facts']:
                continue
        if not bad:
            eng.stats['loops_exact'] += 1 if not parts[1] and not any(x[2] is None for lg in parts[3].values() for x in lg[1]) else 0
            ex, dn = [], []
            for e, d in peeled:
                ex += e
                dn += d
            return ex + exits, dn + done
        if strict:
            return None
        # weaken: scalars/phis that do not follow their template become havoc
        changed = False
        for b in bad:
            if b[0] == 'phi' and parts[0][b[1]] is not None:
                parts[0][b[1]] = None
                parts[1].append(b[1])
                changed = True
            elif b[0] == 'cell':
                kept, sc, ts = parts[3][b[1]]
                sc = tuple((i, z, None, l) if (i, z) == b[2] else (i, z, v, l) for i, z, v, l in sc)
                parts[3][b[1]] = (kept, sc, ts)
                changed = True
            else:
                return None
        if not changed:
            return None
    return None


def havoc_val(eng, L, func, k, m, parts, base):
    key = '%s:%s' % (loopname(func, L), k)
    isptr = False
    if k[0] == 'phi':
        for ph in func.blocks[L.header].phis:
            if ph.res == k[1]:
                if ph.ty.k == 'ptr':
                    isptr = True
    return app('hv', key, m, ptr=isptr or None)


def same(st, a, b):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        x, y = st.norm(a), st.norm(b)
        return x is y or st.decide(eq(x, y)) is True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if iscond(a) or iscond(b):
            x, y = st.norm(a), st.norm(b)
            return x == y or (st.decide(x) is not None and st.decide(x) == st.decide(y))
        return len(a) == len(b) and all(same(st, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        if iscond(a) and iscond(b):
            return st.decide(a) is not None and st.decide(a) == st.decide(b)
    return a == b


def same_entry(st, a, b):
    b = align_binders(b, a) if len(a.binders) == len(b.binders) else b
    return (len(a.binders) == len(b.binders) and len(a.idx) == len(b.idx)
            and all(same(st, x[1], y[1]) and same(st, x[2], y[2]) for x, y in zip(a.binders, b.binders))
            and same(st, a.guard, b.guard) and all(same(st, x, y) for x, y in zip(a.idx, b.idx))
            and same(st, a.size, b.size) and (a.val == b.val or same(st, a.val, b.val)))


def same_ev(st, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Ev):
        return a.name == b.name and len(a.args) == len(b.args) and all(same(st, x, y) for x, y in zip(a.args, b.args)) and (a.ret is b.ret or same(st, a.ret, b.ret))
    if isinstance(a, EvFor):
        if b.var is not a.var:
            b = b.map(lambda t: subst(t, {b.var: a.var.lin}))
        return same(st, a.lo, b.lo) and same(st, a.hi, b.hi) and same_evs(st, a.body, b.body)
    return same(st, a.cond, b.cond) and same_evs(st, a.a, b.a) and same_evs(st, a.b, b.b)


def same_evs(st, a, b):
    return len(a) == len(b) and all(same_ev(st, x, y) for x, y in zip(a, b))


def verify(eng, G, nxt, base, parts, m, L, func, cands, j2):
    """is nxt an instance of the template at m+1?"""
    phis, weak, ctr, logs, freed, evs, j = parts
    m1 = add(m.lin, ONE)
    at = {m: m1}
    bad = []
    env = nxt.frames[-1].env
    if len(nxt.frames) != len(G.frames):
        return ['frames'], []
    for k, v in phis.items():
        if v is None:
            continue
        w = tpl(v, m1, m)
        if not same(nxt, env[k], w):
            if eng.trace:
                print('     phi', k, 'is', nxt.norm(env[k]), 'want', nxt.norm(w))
            bad.append(('phi', k))
    for k, v in ctr.items():
        if not same(nxt, nxt.ctr.get(k, ZERO), subst(v, at)):
            bad.append(('ctr', k))
    for k in nxt.ctr:
        if k not in ctr and nxt.ctr[k] is not ZERO:
            bad.append(('ctr', k))
    for which, tab, cur in (('log', logs, nxt.log), ('freed', freed, nxt.freed)):
        for root in set(tab) | set(cur):
            kept, sc, ts = tab.get(root, ((), (), ()))
            g = getattr(G, which).get(root, ())
            c = cur.get(root, ())
            scal = {(i, z): v for i, z, v, l in sc}
            extra = [e for e in c if e not in g]
            lost = [e for e in g if e not in c]
            got = []
            for e in extra:
                key = None
                if not e.binders and e.guard is True:
                    for (i, z) in scal:
                        if z == e.size and all(same(nxt, x, y) for x, y in zip(i, e.idx)):
                            key = (i, z)
                if key is not None:
                    v = scal[key]
                    if v is not None and not same(nxt, e.val, tpl(v, m1, m)):
                        if eng.trace:
                            print('     cell', root, e, 'want', tpl(v, m1, m))
                        bad.append(('cell', root, key))
                    lost = [x for x in lost if not (x.size == key[1] and x.idx == key[0])]
                else:
                    got.append(e)
            for x in lost:
                if (x.idx, x.size) in scal and not x.binders:
                    continue
                bad.append((which + '-lost', root))
            # unchanged scalars must be stable
            for (i, z), v in scal.items():
                if v is not None and not any(e.size == z and e.idx == i for e in extra if not e.binders):
                    if not same(nxt, tpl(v, m.lin, m), tpl(v, m1, m)):
                        bad.append(('cell', root, (i, z)))
            want = [t.map(lambda x: subst(x, {j: m.lin})) if True else t for t in ts]
            if len(want) != len(got) or not all(same_entry(nxt, a, b) for a, b in zip(want, got)):
                # order-insensitive attempt
                rest = list(got)
                ok = len(want) == len(got)
                for a in want:
                    h = next((b for b in rest if same_entry(nxt, a, b)), None)
                    if h is None:
                        ok = False
                        break
                    rest.remove(h)
                if not ok:
                    if eng.trace:
                        print('     ', which, root, 'want', want, 'got', got)
                    bad.append((which, root))
    n = len(G.events)
    if nxt.events[:n] != G.events or not same_evs(nxt, tuple(e.map(lambda x: subst(x, {j: m.lin})) for e in evs), nxt.events[n:]):
        if eng.trace:
            print('     events', nxt.events[n:], 'want', [e.map(lambda x: subst(x, {j: m.lin})) for e in evs])
        bad.append(('events',))
    dropped = []
    for c in cands:
        x = subst(c, {j2: m.lin})
        if nxt.decide(x) is not True:
            dropped.append(c)
    return bad, dropped


def havoc_loop(eng, st, L, depth, func, hist, err=None):
    """no invariant found: forget everything the loop may change"""
    nm = loopname(func, L)
    m = app('sym', 'm!%d' % next(_ids), rng=(0, None))
    G = st.copy()
    fr = G.frames[-1]
    last = hist[-1]
    for ph in func.blocks[L.header].phis:
        vs = {id(x.norm(x.frames[-1].env[ph.res])) for x in hist}
        if len(vs) > 1 or len(hist) < 2:
            isptr = ph.ty.k == 'ptr'
            fr.env[ph.res] = app('hv', '%s:%s' % (nm, ph.res), m, ptr=isptr or None)
    for root in set(last.log):
        a, b = st.log.get(root, ()), last.log.get(root, ())
        if a != b:
            keep = [e for e in a if e in b]
            G.log[root] = tuple(keep) + tuple(Entry((), True, e.idx, e.size, app('hv', nm, str(root), str(e.idx), m), e.loc)
                                              if not e.binders and isinstance(e.val, Lin) else Entry(e.binders, e.guard, e.idx, e.size, ('havoc', nm), e.loc)
                                              for e in b if e not in keep)
    for k in last.ctr:
        if last.ctr[k] is not st.ctr.get(k, ZERO):
            G.ctr[k] = app('hv', nm, str(k), m, rng=(0, None))
    G.freed = dict(last.freed) if False else dict(st.freed)
    G.taint = G.taint + ('loop %s: no invariant found%s' % (nm, ' (%s)' % err if err else ''),)
    if len(last.events) != len(st.events):
        G.events = st.events + (Ev('?havoc', (), None, nm),)
    eng.notes.setdefault('havoc', set()).add(nm)
    backs, exits, done = eng.explore(G.copy(), depth, (func, L))
    return exits, done
