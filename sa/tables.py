"""Look-ups in constant tables at an index known only as a bounded expression, and
the comparisons and compositions of what is found there.  A value found at index y
of a table is an atom tabl(T, y); identical tables share T."""
from spec import *

TABS, KEYS = [], {}
LIMIT = 8192


def table(values):
    values = tuple(values)
    k = KEYS.get(values)
    if k is None:
        k = KEYS[values] = len(TABS)
        TABS.append(values)
    return k


def interval(x):
    """bounds and grid of a form over bounded atoms, or None"""
    lo = hi = x.c
    g = 0
    for a, k in x.t:
        if a.rng is None or a.rng[0] is None or a.rng[1] is None:
            return None
        lo += min(k * a.rng[0], k * a.rng[1])
        hi += max(k * a.rng[0], k * a.rng[1])
        g = gcd_(g, k)
    return lo, hi, abs(g)


from math import gcd as gcd_


def mapped(x, f):
    """f applied to the number x: f(v) -> int or None (outside).  Returns (value, outside?) or None if x is not bounded"""
    if isconst(x):
        v = f(x.c)
        return (const(v) if v is not None else None), v is None
    if len(x.t) == 1 and x.t[0][0].fn == 'tabl':
        a, k = x.t[0]
        T, y = TABS[a.args[0]], a.args[1]
        vals = [f(k * v + x.c) for v in T]
    else:
        iv = interval(x)
        if iv is None or (iv[1] - iv[0]) // iv[2] > LIMIT:
            return None
        lo, hi, g = iv
        vals = [f(v) for v in range(lo, hi + 1, g)]
        d = sub(x, const(lo))
        y = mklin(d.c // g, tuple((a, k // g) for a, k in d.t))
    if any(v is None for v in vals):
        return None if not all(v is None for v in vals) else (None, True)
    return put(vals, y), False


def put(vals, y):
    """the element of vals at index y, y within the list"""
    if isconst(y):
        return const(vals[y.c])
    if len(set(vals)) == 1:
        return const(vals[0])
    d = vals[1] - vals[0]
    if all(vals[i + 1] - vals[i] == d for i in range(len(vals) - 1)):
        return add(mul(y, d), const(vals[0]))
    return app('tabl', table(vals), y, rng=(min(vals), max(vals)))


def _rule(k, y):
    return put(TABS[k.c if isinstance(k, Lin) else k], y)


RULES['tabl'] = _rule


def where(vals, y, ok):
    """condition: ok holds for the element of vals at index y"""
    out, n, i = [], len(vals), 0
    while i < n:
        if not ok(vals[i]):
            i += 1
            continue
        j = i
        while j + 1 < n and ok(vals[j + 1]):
            j += 1
        if i == 0 and j == n - 1:
            return True
        out.append(eq(y, const(i)) if i == j else conj(*([le(const(i), y)] if i else []) + ([le(y, const(j))] if j < n - 1 else [])))
        i = j + 1
    return disj(*out)


CMP = {'eq': lambda v: v == 0, 'ne': lambda v: v != 0, 'lt': lambda v: v < 0, 'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0}


def install(e):
    """constant tables of the program, whole-table reasoning"""
    plain = e.global_init

    def init(st, root, idx, size, ty):
        off = idx[0]
        g = e.globobj.get(root[1])
        if isconst(off) or g is None or g.external or g.init is None or (ty is not None and ty.k == 'ptr'):
            return plain(st, root, idx, size, ty)
        n = g.mod.size(g.ty)

        def f(o):
            if not 0 <= o <= n - size:
                return None
            v = e._const(g.mod, g.ty, g.init, o, size)
            return v if isinstance(v, int) else None
        r = mapped(off, f)
        if r is None:
            for c in (le(ZERO, off), le(off, const(n - size))):
                c = st.norm(c)
                d = st.decide(c)
                if d is None:
                    raise NeedSplit(c)
                if not d:
                    st.errs = st.errs + (('overrun', g.mod.name + '.c', 'table %s is read at byte %s, it has %d' % (g.name, off, n), e.callstack(st)),)
                    raise E.Fault('overrun')
            return app('look', root[1], off, size, rng=e.table_range(g, size))
        if r[1]:
            st.errs = st.errs + (('overrun', g.mod.name + '.c', 'table %s is read at byte %s, it has %d' % (g.name, off, n), e.callstack(st)),)
            raise E.Fault('overrun')
        return r[0]
    e.global_init = init
    icmp = e.icmp

    def cmp(st, pred, ty, a, b):
        if ty.k == 'int' and ty.n > 1:
            x, y = e.lin(st, a), e.lin(st, b)
            d = st.norm(sub(x, y))
            if len(d.t) == 1 and d.t[0][0].fn == 'tabl':
                at, k = d.t[0]
                vals = TABS[at.args[0]]
                nonneg = pred[0] != 'u' or (isconst(x) or min(vals) >= 0) and (isconst(y) or min(vals) >= 0)
                if nonneg and (pred in ('eq', 'ne') or isconst(x) and 0 <= x.c or isconst(y) and 0 <= y.c):
                    op = CMP[pred if pred in ('eq', 'ne') else pred[1:]]
                    return st.norm(where(vals, at.args[1], lambda v: op(k * v + d.c)))
        return icmp(st, pred, ty, a, b)
    e.icmp = cmp


def no_wrap(e):
    """arithmetic in 32 bits is checked: a signed overflow is an error, a shift drops what does not fit"""
    plain = e.binop
    cast = e.cast

    def binop(st, op, ty, a, b):
        r = plain(st, op, ty, a, b)
        if ty.k == 'int' and ty.n in (16, 32, 64) and isinstance(r, Lin) and op in ('add', 'sub', 'mul', 'shl'):
            n = ty.n
            ins = current(st)
            signed = ins is not None and 'nsw' in ins.txt.split(ty_txt(n))[0].split()
            iv = interval(r)
            if iv and -(1 << n - 1) <= iv[0] and iv[1] < 1 << n - 1:
                return r
            if signed:
                for c in (le(r, const((1 << n - 1) - 1)), le(const(-(1 << n - 1)), r)):
                    c = st.norm(c)
                    d = st.decide(c)
                    if d is None:
                        if any(x.fn in ('hv', 'mul') for x in deep_atoms(c)):
                            raise GiveUp('size of %s' % r)
                        raise NeedSplit(c)
                    if not d:
                        st.errs = st.errs + (('overflow', e.prog.loc(ins) if ins is not None else '', 'the %d-bit result %s does not fit' % (n, str(r)[:80]), e.callstack(st)),)
                        raise E.Fault('overflow')
            elif n < 64 or op == 'shl' or op == 'mul':
                if op != 'sub' and iv and iv[0] >= 0 and iv[1] < 1 << n:
                    return r
                bits = E.as_bits(r, n)
                if bits is not None:
                    return E.from_bits(bits)
                m = const((1 << n) - 1)
                if all(st.decide(st.norm(c)) for c in (le(ZERO, r), le(r, m))):
                    return r
                return app('trunc', r, n, rng=(0, (1 << n) - 1))
        return r

    def do_cast(st, op, sty, dty, v):
        if op == 'sext' and sty.k == 'int' and sty.n in (8, 16, 32):
            v = e.lin(st, v)
            h = 1 << sty.n - 1
            iv = interval(v)
            if not (iv and iv[1] < h):
                c = st.norm(lt(v, const(h)))
                d = st.decide(c)
                if d is None:
                    raise NeedSplit(c)
                if not d:
                    return sub(v, const(2 * h))
        return cast(st, op, sty, dty, v)
    e.binop = binop
    e.cast = do_cast


def ty_txt(n):
    return ' i%d ' % n


def current(st):
    fr = st.frames[-1] if st.frames else None
    if fr is None:
        return None
    b = fr.f.blocks[fr.blk]
    return b.ins[fr.ip] if 0 <= fr.ip < len(b.ins) else None


def evaluator(e, env):
    """valuation of atoms extended to table look-ups"""
    def ev(x):
        v = env(x)
        if v is not None:
            return v
        if x.fn == 'tabl':
            y = E.termval(x.args[1], ev)
            return TABS[x.args[0]][y] if y is not None and 0 <= y < len(TABS[x.args[0]]) else None
        if x.fn == 'look':
            g, o = e.globobj[x.args[0]], E.termval(x.args[1], ev)
            r = e._const(g.mod, g.ty, g.init, o, x.args[2]) if o is not None else None
            return r if isinstance(r, int) else None
        if x.fn in ('zext', 'uns'):
            y = E.termval(x.args[0], ev)
            return y if y is not None and y >= 0 else None
        return None
    return ev


def witness(o, c, valuations):
    """a valuation of the free atoms that satisfies the path and falsifies c, or None"""
    for env in valuations:
        ev = evaluator(o.e, lambda x: env.get(x))
        if all(E.condval(p, ev) is True for p in o.st.path) and E.condval(c, ev) is False:
            return env
    return None
