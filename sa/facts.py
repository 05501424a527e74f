"""Fact store: conjunction of linear (in)equalities, disequalities, and
universally quantified facts left behind by loops."""
from terms import *
from terms import _eqn

AX = {}


def axioms(a):
    r = []
    if a.rng is not None:
        lo, hi = a.rng
        if lo is not None:
            r.append(le(const(lo), a.lin))
        if hi is not None:
            r.append(le(a.lin, const(hi)))
    f = AX.get(a.fn)
    if f:
        r += f(a)
    return [c for c in r if c is not True]


def _ax_urem(a):
    return [le(ZERO, a.lin), lt(a.lin, a.args[1])]


def _ax_udiv(a):
    x, y = a.args
    r = [le(ZERO, a.lin)]
    if isconst(y) and y.c > 0:
        r += [le(mul(a.lin, y.c), x), le(x, add(mul(a.lin, y.c), const(y.c - 1)))]
    return r


AX['urem'] = _ax_urem
AX['udiv'] = _ax_udiv
AX['n'] = lambda a: [le(ZERO, a.lin)]
AX['strlen'] = lambda a: [le(ZERO, a.lin)]
AX['char'] = lambda a: [le(const(-128), a.lin), le(a.lin, const(127))]
AX['alloc'] = AX['glob'] = AX['fn'] = AX['nptr'] = lambda a: [le(ONE, a.lin)]
AX['b2i'] = lambda a: [le(ZERO, a.lin), le(a.lin, ONE)]
AX['u8'] = lambda a: [le(ZERO, a.lin), le(a.lin, const(255))]

_nest = 0
_cache = {}
LIMIT = 400


def fm_unsat(cons):
    """cons: iterable of Lin meaning <= 0. True if integer-infeasible (proved)."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = _fm(key)
    return r


def _tight(l):
    g = 0
    for _, k in l.t:
        g = gcd_(g, k)
    if g > 1:
        return mklin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return l


from math import gcd as gcd_


def _fm(cons):
    cur = {}
    for l in cons:
        if not l.t:
            if l.c > 0:
                return True
            continue
        l = _tight(l)
        if l.t not in cur or cur[l.t] < l.c:
            cur[l.t] = l.c
    while cur:
        # contradiction of a pair x<=a, -x<=b handled by elimination
        occ = {}
        for t in cur:
            for a, k in t:
                p = occ.setdefault(a, [0, 0])
                p[k > 0] += 1
        best = min(occ, key=lambda a: occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1])
        pos, neg_, rest = [], [], {}
        for t, c in cur.items():
            for a, k in t:
                if a is best:
                    (pos if k > 0 else neg_).append((t, c, k))
                    break
            else:
                rest[t] = c
        if len(rest) + len(pos) * len(neg_) > LIMIT:
            return False
        for t1, c1, k1 in pos:
            for t2, c2, k2 in neg_:
                g = gcd_(k1, -k2)
                m1, m2 = -k2 // g, k1 // g
                d = {}
                for a, k in t1:
                    d[a] = d.get(a, 0) + k * m1
                for a, k in t2:
                    d[a] = d.get(a, 0) + k * m2
                l = from_dict(c1 * m1 + c2 * m2, d)
                if not l.t:
                    if l.c > 0:
                        return True
                    continue
                l = _tight(l)
                if l.t not in rest or rest[l.t] < l.c:
                    rest[l.t] = l.c
        cur = rest
    return False


class Facts:
    __slots__ = ('les', 'nes', 'eqs', 'sub', 'foralls', 'memo', 'ors', 'dmemo')

    def __init__(s):
        s.les = ()      # Lin <= 0
        s.nes = ()      # Lin != 0
        s.eqs = ()      # Lin == 0 not solvable
        s.sub = {}
        s.foralls = ()
        s.ors = ()
        s.memo = {}
        s.dmemo = {}

    def copy(s):
        n = Facts()
        n.les, n.nes, n.eqs, n.sub, n.foralls, n.ors = s.les, s.nes, s.eqs, s.sub, s.foralls, s.ors
        n.memo = s.memo
        n.dmemo = s.dmemo
        return n

    # ---- normal form
    def norm(s, x):
        if not s.sub:
            return x
        if isinstance(x, Lin) and not x.t:
            return x
        # rewriting one term can reveal another one (a sum over a known range)
        for _ in range(4):
            y = subst(x, s.sub, s.memo)
            if y is x or y == x:
                break
            x = y
        return x

    # ---- constraint gathering
    def component(s, lins):
        """all <=0 constraints connected to lins (including axioms)"""
        atoms = set()
        for l in lins:
            for a, _ in l.t:
                atoms.add(a)
        out = list(lins)
        pool = list(s.les) + [x for e in s.eqs for x in (e, mul(e, -1))]
        done = set()
        used = [False] * len(pool)
        ch = True
        while ch:
            ch = False
            for a in list(atoms):
                if a in done:
                    continue
                done.add(a)
                for c in axioms(a):
                    c = s.norm(c)
                    if c is True or c is False:
                        continue
                    out.append(c[1])
                    for b, _ in c[1].t:
                        if b not in atoms:
                            atoms.add(b)
                            ch = True
            for i, p in enumerate(pool):
                if not used[i]:
                    for a, _ in p.t:
                        if a in atoms:
                            used[i] = True
                            out.append(p)
                            for b, _ in p.t:
                                if b not in atoms:
                                    atoms.add(b)
                                    ch = True
                            break
        # a sum of sizes is at least each of its summands
        global _nest
        if not _nest and s.foralls:
            _nest += 1
            try:
                seen = set()
                for (var, lo, hi, fc) in s.foralls:
                    for f in (fc[1] if fc[0] == 'and' else (fc,)):
                        if f[0] not in ('le', 'eq'):
                            continue
                        for a, _ in f[1].t:
                            if a is var or var not in deep_atoms(a):
                                continue
                            for b in list(atoms):
                                if b.fn != a.fn:
                                    continue
                                v = match_var(a.lin, b.lin, var)
                                if v is None or (f, v) in seen:
                                    continue
                                seen.add((f, v))
                                if s.decide(le(lo, v)) is True and s.decide(lt(v, hi)) is True:
                                    g = s.norm(subst(f, {var: v}))
                                    if isinstance(g, tuple) and g[0] in ('le', 'eq'):
                                        out.append(g[1])
                                        if g[0] == 'eq':
                                            out.append(mul(g[1], -1))
            finally:
                _nest -= 1
        if not _nest:
            ps = [a for a in atoms if a.fn == 'psum']
            if ps:
                _nest += 1
                try:
                    have = {}
                    for l in list(pool) + list(lins) + list(s.nes):
                        for b, _ in l.t:
                            have[b] = 1
                    for a in ps:
                        var, body, hi = a.args
                        h = single(body)
                        if h is None:
                            continue
                        if h.fn == 'n':
                            out.append(mul(a.lin, -1))
                        for b in list(have):
                            if b.fn != h.fn or b.fn != 'n':
                                continue
                            v = match_var(body, b.lin, var)
                            if v is not None and s.decide(le(ZERO, v)) is True and s.decide(lt(v, hi)) is True:
                                out.append(sub(b.lin, a.lin))
                                for q in pool:
                                    if any(x is b for x, _ in q.t):
                                        out.append(q)
                finally:
                    _nest -= 1
        return out, atoms

    def unsat_with(s, lins):
        for l in lins:
            if not l.t and l.c > 0:
                return True
        cons, atoms = s.component(lins)
        if fm_unsat(cons):
            return True
        for nl in s.nes:
            if any(a in atoms for a, _ in nl.t):
                if fm_unsat(s.component(lins + [add(nl, ONE)])[0]) and fm_unsat(s.component(lins + [add(mul(nl, -1), ONE)])[0]):
                    return True
        return False

    # ---- queries: True / False / None
    def decide(s, c):
        if c is True or c is False:
            return c
        r = s.dmemo.get(c, 0)
        if r != 0:
            return r
        s.dmemo[c] = None           # a query that comes back to itself is not settled by it
        r = s._decide(c)
        if r is None and _nest:
            s.dmemo.pop(c, None)
        else:
            s.dmemo[c] = r
        return r

    def _decide(s, c):
        c = s.norm(c)
        if c is True or c is False:
            return c
        op = c[0]
        if op == 'and':
            rs = [s.decide(x) for x in c[1]]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            # joint infeasibility
            if all(x[0] in ('le', 'eq', 'ne') for x in c[1]) and s.assume(c) is None:
                return False
            return None
        if op == 'or':
            rs = [s.decide(x) for x in c[1]]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            if all(x[0] in ('le', 'eq', 'ne') for x in c[1]) and s.assume(neg(c)) is None:
                return True
            return None
        l = c[1]
        if op == 'le':
            if s.unsat_with([add(mul(l, -1), ONE)]):
                return True
            if s.unsat_with([l]):
                return False
        else:
            r = None
            if l in s.nes:
                r = False
            elif l in s.eqs or mul(l, -1) in s.eqs:
                r = True
            if r is None:
                a = s.unsat_with([add(l, ONE)])
                b = s.unsat_with([add(mul(l, -1), ONE)])
                if a and b:
                    r = True
                elif s.unsat_with([l, mul(l, -1)]):
                    r = False
            if r is not None:
                return r if op == 'eq' else not r
            # b2i
            if len(l.t) == 1 and l.t[0][0].fn == 'b2i' and l.t[0][1] == 1:
                inner = l.t[0][0].args[0]
                if l.c == 0:
                    r = s.decide(inner)
                    if r is not None:
                        return (not r) if op == 'eq' else r
                elif l.c == -1:
                    r = s.decide(inner)
                    if r is not None:
                        return r if op == 'eq' else (not r)
                else:
                    return op == 'ne'
        for d in s.ors:
            if all(x == c or s.norm(x) == c for x in d[1]):
                return True
        r = s.by_forall(c)
        return r

    def by_forall(s, c):
        heads = {a.fn for a, _ in c[1].t}
        for (var, lo, hi, fc) in s.foralls:
            fs = fc[1] if fc[0] == 'and' else (fc,)
            for q in fs:
                ds = q[1] if q[0] == 'or' else (q,)
                for f in ds:
                    if f[0] not in ('le', 'eq', 'ne') or not any(a.fn in heads and a is not var and var in deep_atoms(a) for a, _ in f[1].t):
                        continue
                    for g, val in ((f, True), (neg(f), False)):
                        if g is True or g is False or g[0] != c[0]:
                            continue
                        v = match_var(g, c, var)
                        if v is None and c[0] != 'le':
                            v = match_var(g[1], c[1], var) or match_var(g[1], mul(c[1], -1), var)
                        if v is None:
                            continue
                        if s.decide(le(lo, v)) is True and s.decide(lt(v, hi)) is True:
                            if all(s.decide(subst(o, {var: v})) is False for o in ds if o is not f):
                                return val
        return None

    # ---- assumptions; returns new Facts or None if contradictory
    def assume(s, c):
        c = s.norm(c)
        if c is True:
            return s
        if c is False:
            return None
        if c[0] == 'and':
            f = s
            for x in c[1]:
                f = f.assume(x)
                if f is None:
                    return None
            return f
        d = s.decide(c) if c[0] != 'and' else None
        if d is True:
            return s
        if d is False:
            return None
        n = s.copy()
        n.dmemo = {}
        if c[0] == 'or':
            n.ors = s.ors + (c,)
            return n
        l = c[1]
        if c[0] == 'ne' and len(l.t) == 1 and l.t[0][0].rng and None not in l.t[0][0].rng and l.c % l.t[0][1] == 0:
            # one of two values
            x, v = l.t[0][0], -l.c // l.t[0][1]
            if x.fn != 'b2i' and x.rng[1] - x.rng[0] == 1 and v in x.rng:
                return s.assume(_eqn('eq', add(x.lin, const(-(x.rng[0] + x.rng[1] - v)))))
        # b2i(c) == k
        if len(l.t) == 1 and l.t[0][0].fn == 'b2i' and c[0] in ('eq', 'ne'):
            inner = l.t[0][0].args[0]
            truth = (l.c == -1) == (c[0] == 'eq')
            return s.assume(inner if truth else neg(inner)) if (inner if truth else neg(inner))[0] != 'or' else n._add_or(inner if truth else neg(inner))
        if c[0] == 'le':
            n.les = s.les + (l,)
            if s.decide(le(mul(l, -1))) is True:      # now an equality
                return s.assume(_eqn('eq', l))
            return n.settle()
        if c[0] == 'ne':
            n.nes = s.nes + (l,)
            if s.decide(le(l)) is True:
                n.les = n.les + (add(l, ONE),)
            elif s.decide(le(mul(l, -1))) is True:
                n.les = n.les + (add(mul(l, -1), ONE),)
            return n.settle()
        # eq: solve
        best = None
        for a, k in l.t:
            if abs(k) != 1:
                continue
            rest = mul(sub(l, mul(a.lin, k)), -k)
            if a in deep_atoms(rest):
                continue
            # prefer plain loop symbols, then plain symbols, then apps; younger first
            pri = (a.fn == 'sym' and str(a.args[0]).startswith('m!'), a.fn == 'sym' and not a.isptr, a.fn not in ('alloc', 'glob', 'n', 'strlen'), a.id)
            if best is None or pri > best[0]:
                best = (pri, a, rest)
        if best is None:
            n.eqs = s.eqs + (l,)
            return n.settle()
        _, a, rest = best
        if a.fn == 'psum' and rest is ZERO and single(a.args[1]) is not None and single(a.args[1]).fn == 'n':
            # a sum of sizes is zero: every summand is
            q = (a.args[0], ZERO, a.args[2], eq(a.args[1]))
            if q not in n.foralls:
                s = s.copy()
                s.foralls = s.foralls + (q,)
        n.sub = {}
        stale = []
        for k, v in s.sub.items():
            if any(a in deep_atoms(x) for x in k.args if isinstance(x, (Lin, Atom, tuple))):
                # the left-hand side itself mentions the eliminated atom
                stale.append(_eqn('eq', sub(k.lin, v)))
            else:
                n.sub[k] = subst(v, {a: rest})
        n.sub[a] = rest
        # the axioms of the eliminated atom must survive
        extra = [x for x in axioms(a)]
        n.memo = {}
        cs = [('le', x) for x in s.les] + [('ne', x) for x in s.nes] + [('eq', x) for x in s.eqs] + list(s.ors) + extra + stale
        n.les = n.nes = n.eqs = n.ors = ()
        n.dmemo = {}
        n.foralls = tuple((v, n.norm(lo), n.norm(hi), n.norm(fc)) for v, lo, hi, fc in s.foralls)
        cs += [le(x[2], x[1]) for x in n.foralls if x[3] is False]
        n.foralls = tuple(x for x in n.foralls if x[3] is not True and x[3] is not False)
        les, nes, eqs, ors = [], [], [], []
        for x in cs:
            y = n.norm(x)
            if y is True:
                continue
            if y is False:
                return None
            if y[0] == 'and':
                ys = y[1]
            else:
                ys = (y,)
            for z in ys:
                {'le': les, 'ne': nes, 'eq': eqs}.get(z[0], ors).append(z if z[0] == 'or' else z[1])
        n.les, n.nes, n.ors = tuple(dict.fromkeys(les)), tuple(dict.fromkeys(nes)), tuple(dict.fromkeys(ors))
        # re-add remaining equalities (may be solvable now)
        f = n
        for e in dict.fromkeys(eqs):
            f = f.assume(('eq', e))
            if f is None:
                return None
        return f.settle()

    def _add_or(s, c):
        if c is True:
            return s
        if c is False:
            return None
        n = s.copy()
        n.dmemo = {}
        if c[0] == 'or':
            n.ors = s.ors + (c,)
            return n
        return s.assume(c)

    def settle(s):
        """consistency + unit disjunctions"""
        for l in s.nes:
            if not l.t and l.c == 0:
                return None
        if s.les or s.eqs:
            pass
        for d in s.ors:
            live = [x for x in d[1] if s.decide(x) is not False]
            if not live:
                return None
            if len(live) == 1:
                n = s.copy()
                n.dmemo = {}
                n.ors = tuple(o for o in s.ors if o is not d)
                return n.assume(live[0])
        return s

    def inconsistent(s):
        cons = list(s.les) + [x for e in s.eqs for x in (e, mul(e, -1))]
        if not cons:
            return False
        return s.unsat_with(cons)

    def with_forall(s, var, lo, hi, c):
        n = s.copy()
        n.dmemo = {}
        n.foralls = s.foralls + ((var, lo, hi, c),)
        if var not in deep_atoms(c):
            g = n.assume(disj(le(hi, lo), c))
            if g is not None:
                return g
        return n


def match_var(pat, val, var):
    """find v with pat[var:=v] == val (structurally); None if not found"""
    b = {}
    if _m(pat, val, var, b) and var in b:
        if subst(pat, {var: b[var]}) == val:
            return b[var]
    return None


def _m(p, v, var, b):
    if isinstance(p, tuple):
        if not isinstance(v, tuple) or len(p) != len(v):
            return False
        return all(_m(x, y, var, b) for x, y in zip(p, v))
    if isinstance(p, Lin):
        if not isinstance(v, Lin):
            return False
        if p is v:
            return True
        if var not in deep_atoms(p):
            return False
        if var in b:
            return subst(p, {var: b[var]}) is v
        # linear occurrence at top level?
        k = dict(p.t).get(var)
        rest = sub(p, mul(var.lin, k)) if k else p
        if k and var not in deep_atoms(rest):
            d = sub(v, rest)
            if k in (1, -1):
                b[var] = mul(d, k)
                return True
            if d.c % k == 0 and all(c % k == 0 for _, c in d.t):
                b[var] = mklin(d.c // k, tuple((a, c // k) for a, c in d.t))
                return True
            return False
        # match the varying atom against atoms of v with the same head
        for a, ka in p.t:
            if var in deep_atoms(a):
                for c, kc in v.t:
                    if c.fn == a.fn and kc == ka and len(c.args) == len(a.args):
                        bb = dict(b)
                        if all(_m(x, y, var, bb) for x, y in zip(a.args, c.args)):
                            b.update(bb)
                            return True
                return False
        return False
    if isinstance(p, Atom):
        if p is v:
            return True
        if not isinstance(v, Atom) or p.fn != v.fn or len(p.args) != len(v.args):
            return False
        return all(_m(x, y, var, b) for x, y in zip(p.args, v.args))
    return p == v
