"""Hash-consed terms, linear forms and conditions; the numeric domain is linear
constraints over term atoms (decided by Fourier-Motzkin elimination), the
symbolic part is a congruence on uninterpreted applications."""
from math import gcd


class Atom:
    __slots__ = ('id', 'fn', 'args', 'lin', 'rng', 'isptr', '_deep')

    def __repr__(s):
        if s.fn == 'sym':
            return str(s.args[0])
        return '%s(%s)' % (s.fn, ', '.join(map(show, s.args)))


class Lin:
    __slots__ = ('c', 't', 'h', 'id')

    def __repr__(s):
        out = []
        for a, k in s.t:
            out.append(('%s' if k == 1 else '-%s' if k == -1 else '%d*%%s' % k) % (a,))
        if s.c or not out:
            out.append(str(s.c))
        return ' + '.join(out).replace('+ -', '- ')


_atoms = {}
_lins = {}
_alist = []


def atom(fn, *args, rng=None, ptr=None):
    k = (fn, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        a.fn, a.args = fn, args
        a.rng = rng
        a.isptr = bool(ptr) if ptr is not None else fn in PTRFNS
        a._deep = None
        a.lin = None
        _alist.append(a)
        _atoms[k] = a
        a.lin = mklin(0, ((a, 1),))
    else:
        if rng is not None:
            a.rng = rng
        if ptr:
            a.isptr = True
    return a


PTRFNS = {'elem', 'alloc', 'glob', 'fn', 'nptr'}


def mklin(c, t):
    k = (c, t)
    l = _lins.get(k)
    if l is None:
        l = Lin()
        l.c, l.t = c, t
        l.id = len(_lins)
        _lins[k] = l
    return l


def const(c):
    return mklin(c, ())


ZERO = const(0)
ONE = const(1)


def app(fn, *args, **kw):
    return atom(fn, *args, **kw).lin


def sym(name, rng=None, ptr=False):
    return atom('sym', name, rng=rng, ptr=ptr or None).lin


def from_dict(c, d):
    return mklin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))


def add(x, y, k=1):
    if not y.t:
        return mklin(x.c + k * y.c, x.t)
    if not x.t and k == 1:
        return mklin(x.c + y.c, y.t)
    d = dict(x.t)
    for a, c in y.t:
        d[a] = d.get(a, 0) + k * c
    return from_dict(x.c + k * y.c, d)


def sub(x, y):
    return add(x, y, -1)


def mul(x, k):
    if k == 1:
        return x
    if k == 0:
        return ZERO
    return mklin(x.c * k, tuple((a, c * k) for a, c in x.t))


def isconst(x):
    return not x.t


def single(x):
    """the atom if x is exactly one atom with coefficient 1"""
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0]
    return None


def show(x):
    if isinstance(x, tuple):
        return showc(x) if x and x[0] in ('le', 'eq', 'ne', 'and', 'or') else '(' + ', '.join(map(show, x)) + ')'
    return str(x)


def showc(c):
    if c is True or c is False:
        return str(c)
    if c[0] in ('and', 'or'):
        return '(' + (' %s ' % c[0]).join(showc(x) for x in c[1]) + ')'
    pos = [(a, k) for a, k in c[1].t if k > 0]
    neg = [(a, -k) for a, k in c[1].t if k < 0]
    l, r = mklin(max(c[1].c, 0), tuple(pos)), mklin(max(-c[1].c, 0), tuple(neg))
    return '%s %s %s' % (l, {'le': '<=', 'eq': '==', 'ne': '!='}[c[0]], r)


# --------------------------------------------------------------- conditions
def le(x, y=ZERO):
    """x <= y"""
    l = sub(x, y)
    if not l.t:
        return l.c <= 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        l = mklin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return ('le', l)


def lt(x, y):
    return le(add(x, ONE), y)


def _eqn(op, l):
    if not l.t:
        return (l.c == 0) if op == 'eq' else (l.c != 0)
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if l.c % g:
        return op == 'ne'
    if l.t[0][1] < 0:
        g = -g
    if g != 1:
        l = mklin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return (op, l)


def eq(x, y=ZERO):
    return _eqn('eq', sub(x, y))


def ne(x, y=ZERO):
    return _eqn('ne', sub(x, y))


def neg(c):
    if c is True or c is False:
        return not c
    if c[0] == 'le':
        return le(ONE, c[1])
    if c[0] == 'eq':
        return ('ne', c[1])
    if c[0] == 'ne':
        return ('eq', c[1])
    if c[0] == 'and':
        return disj(*[neg(x) for x in c[1]])
    return conj(*[neg(x) for x in c[1]])


def conj(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def disj(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', tuple(out))


# --------------------------------------------------------------- substitution
def deep_atoms(x):
    """all atoms occurring anywhere (also in arguments)"""
    if isinstance(x, Lin):
        r = set()
        for a, _ in x.t:
            r |= deep_atoms(a)
        return r
    if isinstance(x, Atom):
        if x._deep is None:
            r = {x}
            for y in x.args:
                r |= deep_atoms(y)
            x._deep = frozenset(r)
        return x._deep
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= deep_atoms(y)
        return r
    return frozenset()


# smart constructors re-applied after substitution in arguments
RULES = {}


def subst(x, m, memo=None):
    """m: {Atom: Lin}. Works on Lin, Atom(->Lin), conditions, tuples."""
    if memo is None:
        memo = {}
    if isinstance(x, Lin):
        if not x.t:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        ch = False
        acc = None
        for a, k in x.t:
            v = subst_atom(a, m, memo)
            if v is not a.lin:
                ch = True
                break
        if not ch:
            memo[x] = x
            return x
        acc = const(x.c)
        for a, k in x.t:
            acc = add(acc, subst_atom(a, m, memo), k)
        memo[x] = acc
        return acc
    if isinstance(x, tuple):
        if x and x[0] in ('le', 'eq', 'ne') and len(x) == 2 and isinstance(x[1], Lin):
            l = subst(x[1], m, memo)
            if l is x[1]:
                return x
            return le(l) if x[0] == 'le' else _eqn(x[0], l)
        if x and x[0] == 'and':
            return conj(*[subst(y, m, memo) for y in x[1]])
        if x and x[0] == 'or':
            return disj(*[subst(y, m, memo) for y in x[1]])
        return tuple(subst(y, m, memo) for y in x)
    if isinstance(x, Atom):
        v = subst_atom(x, m, memo)
        s = single(v)
        if s is None:
            return x            # an identity, not a value: keeps its name
        return s
    return x


def subst_atom(a, m, memo):
    v = m.get(a)
    if v is not None:
        return v
    v = memo.get(a)
    if v is not None:
        return v
    if not a.args or a.fn == 'sym':
        return a.lin
    hit = False
    for d in deep_atoms(a):
        if d in m:
            hit = True
            break
    if not hit:
        memo[a] = a.lin
        return a.lin
    na = tuple(subst(y, m, memo) for y in a.args)
    r = RULES.get(a.fn)
    if r:
        v = r(*na)
    else:
        v = atom(a.fn, *na, ptr=a.isptr).lin
        if a.rng is not None:
            v.t[0][0].rng = a.rng
        # a normalised application may itself be a substitution target
        w = m.get(v.t[0][0])
        if w is not None:
            v = w
    memo[a] = v
    return v


# ite(cond, a, b)
def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    # ite(x==0, 0, x) = x
    if c[0] in ('eq', 'ne'):
        u, v = (a, b) if c[0] == 'eq' else (b, a)
        d = sub(u, v)
        if d is c[1] or mul(d, -1) is c[1]:
            return v
    # ite(i >= n(S), 0, elem(S, i)) = elem(S, i)
    if c[0] == 'le':
        for c2, u, v in ((c, a, b), (neg(c), b, a)):
            if u is ZERO:
                x = single(v)
                if x is not None and x.fn == 'elem' and isinstance(x.args[0], Atom) and le(app('n', x.args[0]), x.args[1]) == c2:
                    return v
    return app('ite', c, a, b, ptr=_anyptr(a) or _anyptr(b))


def _anyptr(l):
    return any(x.isptr for x, _ in l.t)


RULES['ite'] = ite


def is01(c):
    """integer value of a condition"""
    if c is True:
        return ONE
    if c is False:
        return ZERO
    return app('b2i', c, rng=(0, 1))


RULES['b2i'] = is01


def split_by(a, m):
    """(q, r) with a = m*q + r and 0 <= r < m for every value of the (bounded) atoms, q >= 0; or None"""
    if m <= 0 or not a.t or len(a.t) > 80:
        return None
    lo = hi = a.c % m
    qlo = a.c // m
    r, q = {}, {}
    for x, k in a.t:
        if x.rng is None or x.rng[0] is None or x.rng[1] is None:
            return None
        k0, k1 = k % m, k // m
        if k0:
            r[x] = k0
            lo += k0 * x.rng[0]
            hi += k0 * x.rng[1]
        if k1:
            q[x] = k1
            qlo += min(k1 * x.rng[0], k1 * x.rng[1])
    if lo < 0 or hi >= m or qlo < 0:
        return None
    return from_dict(a.c // m, q), from_dict(a.c % m, r)


def mk_urem(a, b):
    if isconst(a) and isconst(b) and b.c:
        return const(a.c % b.c)
    if isconst(b):
        s = split_by(a, b.c)
        if s:
            return s[1]
    return app('urem', a, b)


def mk_udiv(a, b):
    if isconst(b) and b.c == 1:
        return a
    if isconst(a) and isconst(b) and b.c:
        return const(a.c // b.c)
    if isconst(b) and b.c > 1 and a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
        return mklin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
    if isconst(b):
        s = split_by(a, b.c)
        if s:
            return s[0]
    return app('udiv', a, b)


RULES['urem'] = mk_urem
RULES['udiv'] = mk_udiv


def psum(var, body, hi):
    """sum of body over var in [0, hi) ; var is a binder atom"""
    d = 1 + max([int(str(x.args[0].args[0])[2:]) for x in deep_atoms(body) if x.fn == 'psum'], default=0)
    cv = atom('sym', 'b!%d' % d)
    if var is not cv:
        body = subst(body, {var: cv.lin})
        var = cv
    if not any(var is d for d in deep_atoms(body)):
        if isconst(body):
            return mul(hi, body.c)
        if isconst(hi):
            return mul(body, hi.c)
    c = hi.c
    if not hi.t:
        r = ZERO
        for k in range(hi.c):
            r = add(r, subst(body, {var: const(k)}))
        return r
    base = mklin(0, hi.t)
    if body.c:
        k = body.c
        body = mklin(0, body.t)
        r = mul(base, k)
        r = add(r, const(k * c))
        if not body.t:
            return r
    else:
        r = ZERO
    r = add(r, app('psum', var, body, base))
    step = 1 if c > 0 else -1
    for q in range(abs(c)):
        at = add(base, const(q if c > 0 else -q - 1))
        r = add(r, subst(body, {var: at}), step)
    return r


RULES['psum'] = psum
