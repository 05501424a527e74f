"""C05: set algebra at the level of the contracts of set_insert, set_delete, set_member (decided by C03)."""
from iterops import *

CONTRACT = ('set_create', 'set_insert', '_set_insert', 'set_delete', 'set_member')


def run(ck):
    ht = HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC')
    F = ht.F
    prog = ck.prog

    def start(alias=False, diff=None):
        e = ck.engine()
        ht.install(e)
        st = e.new_state()
        T = ht.table(e, st, 'T')
        if alias:
            U = T
        else:
            kw = {'hash': dict(hashfn='hashfn2'), 'compare': dict(cmpfn='cmpfn2')}.get(diff, {})
            U = ht.table(e, st, 'U', **kw)
            st.facts = st.facts.assume(ne(T.T, U.T))
            if diff:
                a = T.vals[diff]
                st.facts = st.facts.assume(ne(a, U.vals[diff]))
        tabs = {T.T: T, U.T: U}
        e.result = None

        def which(st2, p):
            p = st2.norm(p)
            for h in tabs:
                if p is h or st2.decide(eq(p, h)) is True:
                    return h
            return p

        def flag(en, st2, h):
            off, size, _ = F['readonly']
            return en.read(st2, add(h, const(off)), size, ir.INTS[size * 8])

        def create(en, st2, ins, a):
            N = en.fresh(st2, 'newset', ptr=True)
            st2.facts = st2.facts.assume(ne(N))
            for h in tabs:
                st2.facts = st2.facts.assume(ne(N, h))
            en.event(st2, 'set_create', list(a), N, ins)
            return N

        def change(name):
            def m(en, st2, ins, a):
                s = which(st2, a[0])
                r = app(name, s, st2.norm(a[-1]), rng=(0, 1))
                ro = flag(en, st2, s) if s in tabs else ZERO
                en.event(st2, name, [s] + list(a[1:]) + [ro], r, ins)
                if alias and s in tabs:
                    if name == 'set_delete':
                        k = single(st2.norm(a[1]))
                        if k is not None and k.fn == ht.key:
                            import models
                            models.do_free(en, st2, ins, app('elem', k.args[0], k.args[1]))
                    else:
                        st2.errs = st2.errs + (('use-after-free', prog.loc(ins), '%s may replace the buckets of the set that is being walked' % name, en.callstack(st2)),)
                        raise E.Fault('use-after-free')
                return r
            return m

        def member(en, st2, ins, a):
            s = which(st2, a[0])
            if s in tabs:
                r = app('inset', s, st2.norm(a[1]), rng=(0, 1))
                yes = st2.decide(eq(r, ONE))
                if yes is None:
                    raise NeedSplit(eq(r, ONE))
                r = ONE if yes else ZERO
            else:
                r = app('set_member', s, st2.norm(a[1]), rng=(0, 1))
            en.event(st2, 'set_member', [s, a[1], flag(en, st2, s) if s in tabs else ZERO], r, ins)
            return r
        for nm, h in (('set_create', create), ('set_insert', change('set_insert')), ('_set_insert', change('_set_insert')), ('set_delete', change('set_delete')), ('set_member', member)):
            e.models[nm] = h
            for key in prog.funcs:
                if key in (nm, 'set:' + nm, 'set.' + nm):
                    e.models[key] = h
        return e, st, T, U, which

    # ------------------------------------------------- common obligations
    def operands_kept(o, T, U, target):
        for t, w in ((T, 'first'), (U, 'second')):
            if t.untouched(o) and (t.now(o, 'entries') is o.st.norm(t.ent) or o.st.decide(eq(t.now(o, 'entries'), t.ent)) is True):
                o.good('operands keep their elements')
            else:
                o.fail('operands keep their elements', 'the %s set is modified directly' % w)
            o.equal(t.now(o, 'readonly'), t.vals['readonly'], 'operands keep their protection', 'the read-only flag of the %s set is left at %s' % (w, t.now(o, 'readonly')))

    def walked_protected(o, T, alias):
        """a set that is being walked is not reorganised by lookups in it"""
        if not alias:
            return
        for b, g, ev in named(o.st.events, 'set_member'):
            s3 = inside(o.st, b, g)
            if s3 is None:
                continue
            if ev.args[0] is T.T:
                if s3.decide(ne(ev.args[2])) is True:
                    o.good('lookups do not reorganise a set that is being walked')
                else:
                    o.fail('lookups do not reorganise a set that is being walked', 'set_member on the walked set while its read-only flag is %s (%s)' % (ev.args[2], ev.loc))

    def inside(st, binders, guard):
        f = st.facts
        for v, lo, hi in binders:
            f = f and f.assume(le(lo, v.lin))
            f = f and f.assume(lt(v.lin, hi))
        if f is not None and guard is not True:
            f = f.assume(guard)
        if f is None:
            return None
        s3 = st.copy()
        s3.facts = f
        return s3

    class Reg:
        pass

    def element_of(st, x):
        k = single(st.norm(x))
        if k is None or k.fn != ht.key or k.args[0].fn != 'chain':
            return None
        return k.args

    def gather(o, tabs, names, nm):
        """regions of elements over which the named operation is applied to `to`"""
        out = []
        for b, g, ev in flat(o.st.events):
            if ev.name.startswith('?'):
                o.undec(nm, 'events abstracted')
                return None
            if ev.name not in names:
                continue
            s3 = inside(o.st, b, g)
            if s3 is None:
                continue
            el = ev.args[1] if ev.name != '_set_insert' else ev.args[2]
            k = element_of(s3, el)
            if k is None:
                if weak(el):
                    o.undec(nm, 'element %s' % el)
                else:
                    o.fail(nm, '%s is given %s, not an element of an operand (%s)' % (ev.name, el, ev.loc))
                return None
            r = Reg()
            r.S, r.y = k
            r.x = r.S.args[1]
            r.tab = next((t for t in tabs if single(t.B) is r.S.args[0]), None)
            if r.tab is None:
                o.undec(nm, 'element of %s' % r.S)
                return None
            r.rx, r.ry = range_of(r.x, b), range_of(r.y, b)
            if (r.rx is None) + (r.ry is None) + len(b) != 2:
                o.undec(nm, 'binders of %s' % (k,))
                return None
            r.b, r.g, r.ev, r.st = b, g, ev, s3
            # decisions that look into the buckets of another set are outside the contracts used here
            r.foreign = g is not True and any(a.fn == 'chain' and a is not r.S for a in deep_atoms(g))
            out.append(r)
        return out

    def covers(r, w, v):
        """the condition for the element (bucket w, entry v) to lie in the region"""
        m = {}
        cs = []
        for t, rng, x in ((w, r.rx, r.x), (v, r.ry, r.y)):
            if rng is None:
                cs.append(eq(t, x))
                continue
            for bv, lo, hi in r.b:
                k = dict(x.t).get(bv)
                if k in (1, -1):
                    # x = k*bv + rest
                    rest = sub(x, mul(bv.lin, k))
                    m[bv] = mul(sub(t, rest), k)
        for t, rng, x in ((w, r.rx, r.x), (v, r.ry, r.y)):
            if rng is not None:
                cs.append(le(subst(rng[0], m), t))
                cs.append(lt(t, subst(rng[1], m)))
        if r.g is not True:
            cs.append(subst(r.g, m))
        return conj(*cs)

    def every(o, t, need, regs, nm, what, other=None, instead=None):
        """each element of t with the required property lies in a region"""
        r, msg = every1(o, t, need, regs, what, other)
        if r is not True and instead is not None:
            r2, m2 = every1(o, *instead)
            r = True if r2 is True else None if r2 is None else r
        if r is True:
            o.good(nm)
        elif r is None:
            o.undec(nm, msg)
        else:
            o.fail(nm, msg)

    def every1(o, t, need, regs, what, other=None):
        st = o.st
        w, v = atom('sym', 'w!b'), atom('sym', 'w!e')
        p = st.norm(t.p)
        if not p.t and 0 < p.c <= 3:        # a known number of buckets: each on its own
            verdict, msg = True, None
            for k in range(p.c):
                n = st.norm(app('n', t.chain(const(k))))
                for j in range(n.c) if not n.t and n.c <= 4 else (None,):
                    r, m = every2(o, t, need, regs, what, other, w, const(k), v, None if j is None else const(j))
                    if r is False:
                        return r, m
                    if r is None:
                        verdict, msg = r, m
            return verdict, msg
        return every2(o, t, need, regs, what, other, w, None, v, None)

    def every2(o, t, need, regs, what, other, w, fix, v, fixv):
        st = o.st
        W = w.lin if fix is None else fix
        S = t.chain(W)
        f = st.facts.assume(le(ZERO, w.lin))
        f = f and f.assume(eq(w.lin, W))
        if fixv is not None:
            f = f and f.assume(eq(v.lin, fixv))
        x = app(ht.key, S, v.lin, ptr=True)
        cs = [lt(w.lin, t.p), le(ZERO, v.lin), lt(v.lin, app('n', S)), le(app('n', S), t.ent), need(x)]
        if other is not None:       # the element is in the other set
            cs.append(le(ONE, other.ent))
        for c in cs:
            f = f and (f if c is True else f.assume(c))
        work = [f] if f is not None else []
        for r in regs:
            if r.tab is not t:
                continue
            nx = []
            for f in work:
                for d in alts(neg(covers(r, w.lin, v.lin))):
                    g = f.assume(d)
                    if g is not None:
                        nx.append(g)
            work = nx
            if len(work) > 200:
                return None, 'too many cases'
        verdict = True
        for f in work:
            g = inst(f, w.lin, v.lin, S)
            if g is None:
                continue
            s2 = st.copy()
            s2.facts = g
            if any(r.foreign or weak(z) for r in regs for z in (r.x, r.y) if r.rx is None or r.foreign):
                verdict = None
                continue
            if small2(g, w.lin, v.lin, S):
                return False, what + ' (entry %s of bucket %s)' % (s2.norm(v.lin), s2.norm(w.lin))
            verdict = None
        return verdict, 'not shown for every element'

    def alts(c):
        if c is True:
            return [True]
        if c is False:
            return []
        if c[0] == 'or':
            return [z for x in c[1] for z in alts(x)]
        return [c]

    def inst(f, w, v, S):
        """quantified facts at the witness"""
        for _ in range(2):
            for var, lo, hi, c in list(f.foralls):
                for t in (w, v):
                    if f.assume(conj(le(lo, t), lt(t, hi))) is not None and f.assume(neg(conj(le(lo, t), lt(t, hi)))) is None:
                        f = f.assume(subst(c, {var: t}))
                        if f is None:
                            return None
        return f

    def small2(f, w, v, S):
        for nn in (1, 2, 3):
            g = f.assume(eq(app('n', S), const(nn)))
            if g is None:
                continue
            for jj in range(nn):
                h = g.assume(eq(v, const(jj)))
                for ww in (0, 1, 2, 9, 40):
                    k = h and h.assume(eq(w, const(ww)))
                    if k is not None and ground(k, 0):
                        return True
        return False

    def only(o, regs, ok, nm, what):
        for r in regs:
            c = ok(r)
            if c is True or r.st.decide(c) is True:
                o.good(nm)
            elif weak(c) or r.foreign:
                o.undec(nm, '%s' % showc(c) if not isinstance(c, bool) else 'depends on the buckets of the other set')
            elif c is False or r.st.facts.assume(neg(c)) is not None:
                o.fail(nm, '%s: %s of entry %s of bucket %s, also when %s (%s)' % (what, r.ev.name, r.y, r.x, showc(neg(c)), r.ev.loc))

    def tgt(o, regs, to, nm):
        for r in regs:
            if r.ev.args[0] is not o.st.norm(to):
                o.fail(nm, '%s changes %s (%s)' % (r.ev.name, r.ev.args[0], r.ev.loc))
            else:
                o.good(nm)

    def inset(t, x):
        return app('inset', t.T, x, rng=(0, 1))

    ops = ('set_insert', '_set_insert', 'set_delete')

    def unique(o, regs, T, U, nm='an element enters the result once'):
        """direct insertion is only for elements that cannot be in the result yet"""
        for i, r in enumerate(regs):
            if r.ev.name != '_set_insert':
                continue
            x = app(ht.key, r.S, r.y, ptr=True)
            hv = r.st.norm(r.ev.args[1])
            if hv is not r.st.norm(app('hash', r.S, r.y, rng=(0, None))) and hv is not app('hashof', x):
                (o.undec if weak(hv) else o.fail)('an element is stored under its own hash', 'stored under %s (%s)' % (hv, r.ev.loc))
            others = [q for q in regs if q is not r and q.tab is not r.tab]
            if not others:
                continue
            oth = others[0].tab
            c = eq(inset(oth, x), ZERO)
            if r.st.decide(c) is True or all(q.ev.name == 'set_insert' and regs.index(q) > i for q in others):
                o.good(nm)
            else:
                o.fail(nm, 'elements of both operands are inserted without looking whether they are there (%s)' % r.ev.loc)

    # ------------------------------------------------- the five operations
    def constructing(fn, needT, needU, swap=None):
        for alias in (False, True):
            e, st, T, U, which = start(alias)

            def post(o, T=T, U=U, alias=alias):
                made = named(o.st.events, 'set_create')
                nm = 'the result is an independent new set'
                if len(made) != 1 or o.st.norm(o.ret) is not made[0][2].ret:
                    o.fail(nm, 'returns %s' % o.ret)
                    return
                o.good(nm)
                a = made[0][2].args
                o.equal(a[0], T.vals['hash'], 'the result uses the functions of the operands')
                o.equal(a[1], T.vals['compare'], 'the result uses the functions of the operands')
                operands_kept(o, T, U, None)
                walked_protected(o, T, alias)
                nm = 'the result has exactly the elements it should'
                regs = gather(o, (T, U), ops, nm)
                if regs is None:
                    return
                if any(r.ev.name == 'set_delete' for r in regs):
                    o.undec(nm, 'deletes')
                    return
                tgt(o, regs, o.ret, 'operands keep their elements')
                unique(o, regs, T, U)
                only(o, regs, lambda r: (needT if r.tab is T else needU)(T, U, app(ht.key, r.S, r.y, ptr=True)) if not alias else (needT(T, U, app(ht.key, r.S, r.y, ptr=True))), nm, 'an element that does not belong')
                if alias:
                    # x in T for every element x of T
                    every(o, T, lambda x: conj(eq(inset(T, x), ONE), needT(T, U, x)), regs, nm, 'an element is missing')
                else:
                    every(o, T, lambda x: needT(T, U, x), regs, nm, 'an element of the first set is missing', U if fn == 'set_inter' else None,
                          (U, lambda x: needU(T, U, x), regs, 'an element of the second set is missing', T) if fn == 'set_inter' else None)
                    if fn == 'set_union':
                        every(o, U, lambda x: eq(inset(T, x), ZERO), regs, nm, 'an element of the second set is missing')
            ck.run(fn, e, st, [T.T, U.T], post, label='with itself' if alias else None)
    yes = lambda T, U, x: True
    constructing('set_union', yes, yes)
    constructing('set_inter', lambda T, U, x: eq(inset(U, x), ONE), lambda T, U, x: eq(inset(T, x), ONE))
    constructing('set_diff', lambda T, U, x: eq(inset(U, x), ZERO), lambda T, U, x: False)

    def inplace(fn, op):
        for alias in (False, True):
            e, st, T, U, which = start(alias)

            def post(o, T=T, U=U, alias=alias):
                o.equal(o.ret, T.T, 'the first set is returned')
                nm = 'the target has exactly the elements it should'
                regs = gather(o, (T, U), ops, nm)
                if regs is None:
                    return
                if alias:
                    if fn == 'set_add':
                        (o.good if not regs or all(r.ev.name == 'set_insert' for r in regs) else lambda n: o.fail(n, 'elements are removed'))(nm)
                    else:
                        every(o, T, lambda x: True, [r for r in regs if r.ev.name == 'set_delete'], nm, 'an element stays')
                    return
                operands_kept(o, T, U, T)
                tgt(o, regs, T.T, 'operands keep their elements')
                if any(r.ev.name == '_set_insert' for r in regs):
                    for r in regs:
                        x = app(ht.key, r.S, r.y, ptr=True)
                        if r.ev.name == '_set_insert' and r.st.decide(eq(inset(T, x), ZERO)) is not True:
                            o.fail('an element enters the result once', 'elements are inserted without looking whether they are there (%s)' % r.ev.loc)
                bad = [r for r in regs if (r.ev.name == 'set_delete') != (fn == 'set_del')]
                if bad:
                    o.fail(nm, '%s is called (%s)' % (bad[0].ev.name, bad[0].ev.loc))
                    return
                if any(r.tab is T and fn == 'set_add' for r in regs):
                    o.undec(nm, 'own elements are inserted again')
                    return
                if fn == 'set_add':
                    every(o, U, lambda x: eq(inset(T, x), ZERO), regs, nm, 'an element of the second set is missing')
                elif any(r.tab is T for r in regs):
                    only(o, [r for r in regs if r.tab is T], lambda r: eq(inset(U, app(ht.key, r.S, r.y, ptr=True)), ONE), nm, 'an element that should stay')
                    every(o, T, lambda x: eq(inset(U, x), ONE), regs, nm, 'an element stays', U)
                else:
                    every(o, U, lambda x: eq(inset(T, x), ONE), regs, nm, 'an element of the second set stays', T)
            ck.run(fn, e, st, [T.T, U.T], post, label='with itself' if alias else None)
    inplace('set_add', 'set_insert')
    inplace('set_del', 'set_delete')

    for alias in (False, True):
        e, st, T, U, which = start(alias)

        def found(regs, t, u):
            return [r for r in regs if r.tab is t and r.ev.args[0] is u.T and r.ev.ret is ONE]

        def post_equal(o, T=T, U=U, alias=alias):
            operands_kept(o, T, U, None)
            walked_protected(o, T, alias)
            nm = 'equal exactly when both have the same elements'
            mem = named(o.st.events, 'set_member')
            regs = gather(o, (T, U), ('set_member',) + ops, nm)
            if regs is None:
                return
            if any(r.ev.name in ops for r in regs):
                o.fail('operands keep their elements', 'a set is changed')
                return
            ret = o.st.norm(o.ret)
            if o.need(eq(ret)):
                if alias:
                    # every element of a set is in it
                    for r in regs:
                        x = app(ht.key, r.S, r.y, ptr=True)
                        s3 = r.st.facts.assume(eq(inset(T, x), ONE))
                        if s3 is None and not r.b:
                            return o.good(nm)
                    if o.st.decide(True) and not regs:
                        return o.fail(nm, 'a set is not equal to itself')
                    return o.undec(nm, 'unequal to itself')
                if o.need(ne(T.ent, U.ent)):
                    return o.good(nm)
                for r in regs:
                    x = app(ht.key, r.S, r.y, ptr=True)
                    oth = U if r.tab is T else T
                    if not r.b and r.st.decide(eq(inset(oth, x), ZERO)) is True:
                        return o.good(nm)
                if weak(tuple(o.st.path)):
                    return o.undec(nm, 'unequal')
                o.fail(nm, 'the sets are called unequal although no element tells them apart')
                return
            if alias:
                return o.good(nm)
            if any(r.tab is U for r in regs) and not any(r.tab is T for r in regs):
                T, U = U, T
            same = o.st.decide(eq(T.ent, U.ent))
            if same is not True:
                # both directions would do as well
                if any(r.tab is T for r in regs) and any(r.tab is U for r in regs):
                    every(o, U, lambda x: eq(inset(T, x), ZERO), found(regs, U, T), nm, 'an element of one set missing from the other')
                elif weak((T.ent, U.ent)) and False:
                    o.undec(nm, 'cardinality')
                else:
                    o.fail(nm, 'sets of different size can be called equal')
            every(o, T, lambda x: eq(inset(U, x), ZERO), found(regs, T, U), nm, 'an element of one set that is missing from the other goes unnoticed')
        ck.run('set_equal', e, st, [T.T, U.T], post_equal, label='with itself' if alias else None)

    # ------------------------------------------------- different functions
    for fn in ('set_union', 'set_inter', 'set_diff', 'set_add', 'set_del', 'set_equal'):
        for d in ('hash', 'compare'):
            e, st, T, U, which = start(False, d)
            nm = 'sets with different %s functions are rejected' % d

            def post(o, nm=nm):
                o.fail(nm, 'the call returns normally')

            def refused(o, how, T=T, U=U, nm=nm):
                if how != 'err_fatal':
                    return o.fail(nm, 'ends in %s' % how)
                o.good(nm)
                ev = [x[2] for x in named(o.st.events, *ops)]
                t = all(z.untouched(o) and o.st.norm(z.now(o, 'readonly')) is o.st.norm(z.vals['readonly']) for z in (T, U))
                (o.good if t and not ev else lambda n: o.fail(n, 'something was changed before'))('rejected before anything is changed')
            ck.run(fn, e, st, [T.T, U.T], post, label='different %s functions' % d, on_noreturn=refused)
    return dict(minimum=30)
