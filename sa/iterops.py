"""Obligations for iteration over hash tables and sets: what the callback is shown,
when the walk stops, and the protection flag."""
from htable import *


def visit_model(ht, t, free_entry=False):
    """the user callback: arbitrary result; optionally the entry it was given vanishes"""
    off, size, _ = ht.F['readonly']

    def visit(en, st2, ins, a, x):
        import models
        ret = en.fresh(st2, 'visit', rng=(-(1 << 31), (1 << 31) - 1))
        ro = en.read(st2, add(t.T, const(off)), size, ir.INTS[size * 8])
        en.event(st2, 'visit', list(a) + [ro], ret, ins)
        if free_entry:
            k = single(st2.norm(a[0]))
            if k is not None and k.fn == ht.key:
                models.do_free(en, st2, ins, app('elem', k.args[0], k.args[1]))
        return ret
    return visit


def regions(o, t, evs, nm, extra=()):
    """what the visits cover: [('rows', lo, hi, ev) | ('part', x, lo, hi, ev)]; None if not understood"""
    out = []
    for binders, guard, ev in flat(evs):
        if ev.name != 'visit':
            if ev.name.startswith('?'):
                o.undec(nm, 'events abstracted')
                return None
            continue
        st2 = o.st
        f = st2.facts
        for v, lo, hi in binders:
            f = f and f.assume(le(lo, v.lin))
            f = f and f.assume(lt(v.lin, hi))
        if f is None:
            continue
        st3 = st2.copy()
        st3.facts = f
        vals = [st3.norm(a) for a in ev.args]
        k = single(vals[0])
        if k is None or k.fn != t.ht.key or k.args[0].fn != 'chain':
            if weak(vals[0]):
                o.undec(nm, 'visited value %s' % vals[0])
            else:
                o.fail(nm, 'the callback is given %s instead of a stored %s (%s)' % (vals[0], t.ht.key, ev.loc))
            return None
        S, y = k.args
        for i, p in enumerate(t.ht.payload[1:], 1):
            w = app(p, S, y)
            if vals[i] is not w and st3.decide(eq(vals[i], w)) is not True:
                if weak(vals[i]):
                    o.undec(nm, '%s' % vals[i])
                else:
                    o.fail(nm, 'the callback is given %s together with the key of entry %s of %s (%s)' % (vals[i], y, S, ev.loc))
                return None
        for i, w in enumerate(extra, len(t.ht.payload)):
            if vals[i] is not st3.norm(w):
                o.fail('the caller\'s argument is passed on', 'the callback gets %s' % vals[i])
        if guard is not True and st3.decide(guard) is not True:
            if weak(guard):
                o.undec(nm, 'guard %s' % showc(guard))
                return None
            if witness(st3, neg(guard)):
                o.fail(nm, 'an entry is shown only if %s (%s)' % (showc(guard), ev.loc))
                return None
        x = S.args[1]
        n = app('n', S)
        rx = range_of(x, binders)
        ry = range_of(y, binders)
        if not binders or (rx is None and len(binders) == 1):
            if ry is None:
                ry = (y, add(y, ONE))
            out.append(('part', x, ry[0], ry[1], ev))
        elif rx is not None and len(binders) == 1:
            # one visit per row: complete only for singleton rows
            q = Out(o.ck, o.lab, o.name, o.e, st3)
            r = st3.decide(eq(n, ONE))
            if r is True and y is ZERO:
                out.append(('rows', rx[0], rx[1], ev))
            elif weak(y):
                o.undec(nm, 'row %s' % y)
                return None
            elif witness(st3, le(const(2), n)):
                o.fail(nm, 'only entry %s of each bucket is shown (%s)' % (y, ev.loc))
                return None
            else:
                o.undec(nm, 'row')
                return None
        elif rx is not None and ry is not None:
            if st3.decide(conj(eq(ry[0], ZERO), eq(ry[1], n))) is True:
                out.append(('rows', rx[0], rx[1], ev))
            elif st3.decide(conj(le(ry[0], ZERO), le(n, ry[1]))) is True and not weak(ry):
                o.fail(nm, 'entries %s..%s of a bucket with %s entries are shown' % (ry[0], ry[1], n))
                return None
            elif weak(ry):
                o.undec(nm, '%s %s' % ry)
                return None
            elif witness(st3, disj(lt(ZERO, ry[0]), lt(ry[1], n))):
                o.fail(nm, 'only the entries %s..%s of the %s of a bucket are shown (%s)' % (ry[0], ry[1], n, ev.loc))
                return None
            else:
                o.undec(nm, 'row %s %s' % ry)
                return None
        else:
            o.undec(nm, 'visits %s %s' % (x, y))
            return None
    return out


def complete(o, t, regs, nm):
    """the regions are every entry exactly once"""
    if regs is None:
        return
    rows = [('run', t.B, r[1], r[2]) for r in regs if r[0] == 'rows']
    parts = {}
    for r in regs:
        if r[0] == 'part':
            for x in parts:
                if x is r[1] or o.need(eq(x, r[1])):
                    parts[x].append(('run', t.B, r[2], r[3]))
                    break
            else:
                parts[r[1]] = [('run', t.B, r[2], r[3])]
    for x, segs in parts.items():
        n = app('n', t.chain(x))
        if not tile(o, segs, ZERO, n):
            o.fail(nm, 'of bucket %s with %s entries only %s are shown' % (x, n, [(a[2], a[3]) for a in segs]))
            return
        rows.append(('run', t.B, x, add(x, ONE)))
    rows = [r for r in rows if not o.need(le(r[3], r[2]))]
    # rows that are not visited must be empty
    lo = ZERO
    ok = tile_rows(o, t, rows)
    if ok is True:
        o.good(nm)
    elif ok is None:
        o.undec(nm, 'rows %s' % [(a[2], a[3]) for a in rows])
    else:
        o.fail(nm, ok)


def tile_rows(o, t, rows):
    rest = list(rows)
    pos = ZERO
    n = 0
    while not o.need(le(t.p, pos)):
        n += 1
        if n > 10:
            return None
        nxt = None
        for r in rest:
            if o.need(eq(r[2], pos)):
                nxt = r
                break
        if nxt is None:
            # a gap up to the smallest start
            best = None
            for r in rest:
                if o.need(lt(pos, r[2])) and (best is None or o.need(lt(r[2], best[2]))):
                    best = r
            end = best[2] if best is not None else t.p
            r = all_empty(o, t, pos, end)
            if r is True:
                pos = end
                continue
            return ('the buckets %s..%s are skipped' % (pos, end)) if r is False else None
        rest.remove(nxt)
        pos = nxt[3]
    if any(not o.need(le(t.p, r[2])) for r in rest):
        return 'buckets are shown more than once: %s' % [(r[2], r[3]) for r in rest]
    return True


def all_empty(o, t, lo, hi):
    """are all chains in [lo,hi) empty?  True / False (definitely need not be) / None"""
    st = o.st
    w = atom('sym', 'w!row')
    f = st.facts.assume(le(lo, w.lin))
    f = f and f.assume(lt(w.lin, hi))
    f = f and f.assume(le(ONE, app('n', t.chain(w.lin))))
    if f is None:
        return True
    if weak((lo, hi)):
        return None
    return False if confirm(f) else None


def confirm(f):
    """try to give the quantified facts and loop counters small values: is the state really consistent?"""
    return ground(f, 0) or not f.foralls


def disjoint(o, t, regs, nm):
    """no entry is shown twice"""
    if regs is None:
        return
    for i, a in enumerate(regs):
        for b in regs[i + 1:]:
            if a[0] == 'rows' and b[0] == 'rows':
                c = disj(le(a[2], b[1]), le(b[2], a[1]), le(a[2], a[1]), le(b[2], b[1]))
            elif a[0] == 'part' and b[0] == 'part':
                c = disj(ne(a[1], b[1]), le(a[3], b[2]), le(b[3], a[2]), le(a[3], a[2]), le(b[3], b[2]))
            else:
                if a[0] == 'part':
                    a, b = b, a
                c = disj(lt(b[1], a[1]), le(a[2], b[1]), le(b[3], b[2]))
            o.must(c, nm, 'an entry can be shown twice: %s and %s' % (a[:-1], b[:-1]))


def iterate_ops(ck, ht, fn, arg, protect):
    """fn: callback iteration; arg: the function passes an extra argument; protect: the container is read-only meanwhile"""
    cb, ar = sym('cb', ptr=True), sym('arg', ptr=True)

    def start(free_entry=False):
        e = ck.engine()
        ht.install(e)
        st = e.new_state()
        t = ht.table(e, st, 'T')
        st.facts = st.facts.assume(ne(cb))
        e.fpmodels[single(cb)] = visit_model(ht, t, free_entry)
        return e, st, t

    e, st, t = start()
    ro = t.vals['readonly']
    extra = (ar,) if arg else ()

    def post(o):
        st = o.st
        if t.untouched(o):
            o.good('iterating keeps the contents')
        else:
            o.fail('iterating keeps the contents', 'the container is changed')
        o.must(eq(t.now(o, 'entries'), t.ent), 'iterating keeps the contents')
        o.equal(t.now(o, 'readonly'), ro, 'the protection is as before afterwards', 'the read-only flag is left at %s instead of its previous value %s' % (t.now(o, 'readonly'), ro))
        vis = [x for x in flat(st.events) if x[2].name == 'visit']
        for b, g, ev in vis:
            f = st.facts
            for v, lo, hi in b:
                f = f and f.assume(le(lo, v.lin))
                f = f and f.assume(lt(v.lin, hi))
            f = f and (f.assume(g) if g is not True else f)
            if f is None:
                continue
            s3 = st.copy()
            s3.facts = f
            q = Out(o.ck, o.lab, o.name, o.e, s3)
            r = s3.norm(ev.args[-1])
            if protect:
                if s3.decide(ne(r)) is True:
                    o.good('the container is protected while the callback runs')
                else:
                    o.fail('the container is protected while the callback runs', 'the callback can be called with the read-only flag %s (%s)' % (r, ev.loc))
            else:
                if r is s3.norm(ro):
                    o.good('the callback may modify what it could modify before')
                else:
                    o.fail('the callback may modify what it could modify before', 'the callback is called with the read-only flag %s' % r)
        # results of the callbacks
        last = None
        for i, (b, g, ev) in enumerate(vis):
            if not b and i == len(vis) - 1 and g is True and st.decide(eq(ev.ret)) is not True:
                last = ev
                continue
            f = st.facts
            for v, lo, hi in b:
                f = f and f.assume(le(lo, v.lin))
                f = f and f.assume(lt(v.lin, hi))
            f = f and (f.assume(g) if g is not True else f)
            if f is None:
                continue
            s3 = st.copy()
            s3.facts = f
            r = s3.norm(ev.ret)
            if s3.decide(eq(r)) is True:
                o.good('the first non-zero answer ends the iteration')
            elif weak(r):
                o.undec('the first non-zero answer ends the iteration', '%s' % r)
            else:
                o.fail('the first non-zero answer ends the iteration', 'the iteration goes on although the callback may have answered non-zero (%s)' % ev.loc)
        regs = regions(o, t, st.events, 'every entry is shown exactly once', extra)
        stopped = last is not None and o.need(ne(last.ret))
        if stopped:
            o.must(ne(o.ret), 'stopping is reported as non-zero', 'returns %s after the callback asked to stop' % o.ret)
            disjoint(o, t, regs, 'every entry is shown exactly once')
        else:
            o.must(eq(o.ret), 'a complete iteration is reported as zero', 'returns %s after a complete iteration' % o.ret)
            complete(o, t, regs, 'every entry is shown exactly once')
    ck.run(fn, e, st, [t.T, cb] + list(extra), post)

    if not protect:
        e, st, t2 = start(True)
        ck.run(fn, e, st, [t2.T, cb] + list(extra), lambda o: o.good('the entry given to the callback may vanish'), label='callback releases the entry')


def position_ops(ck, ht, init, nxt, get, readonly, with_key):
    e = ck.engine()
    ht.install(e)

    # ---- init
    st = e.new_state()
    t = ht.table(e, st, 'T')
    ro = t.vals['readonly']

    def keep(o):
        if t.untouched(o) and o.st.decide(eq(t.now(o, 'entries'), t.ent)) is True:
            o.good('walking keeps the contents')
        else:
            o.fail('walking keeps the contents', 'the container is changed')
    direction = {}

    def none_skipped(o, lo, hi, nm, what):
        r = all_empty(o, t, lo, hi)
        if r is True:
            o.good(nm)
        elif r is None:
            o.undec(nm, what)
        else:
            o.fail(nm, what)

    def post_init(o):
        keep(o)
        nm = 'a walk starts at an end and misses nothing'
        r = o.st.norm(o.ret)
        if o.isnull(r):
            none_skipped(o, ZERO, t.p, nm, 'no position although a bucket may hold entries')
            o.equal(t.now(o, 'readonly'), ro, 'an empty walk leaves the protection alone')
            return
        a = single(r)
        if a is None or a.fn != 'elem' or a.args[0].fn != 'chain':
            o.undec(nm, 'position %s' % r)
            return
        x = a.args[0].args[1]
        if not o.need(eq(a.args[1])):
            o.fail(nm, 'the walk starts at entry %s of a bucket' % a.args[1])
        up, down = all_empty(o, t, ZERO, x), all_empty(o, t, add(x, ONE), t.p)
        if up is True:
            direction['up'] = direction.get('up', 0) + 1
            o.good(nm)
        elif down is True:
            direction['down'] = direction.get('down', 0) + 1
            o.good(nm)
        elif up is False and down is False:
            o.fail(nm, 'the walk starts at bucket %s, but buckets on both sides of it may hold entries' % x)
        else:
            o.undec(nm, 'start at bucket %s' % x)
        o.must(ne(t.now(o, 'readonly')), 'the container is protected during a walk', 'the read-only flag is %s after the walk has begun' % t.now(o, 'readonly'))
    ck.run(init, e, st, [t.T], post_init)
    down = 'down' in direction and 'up' not in direction

    # ---- next
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    t = ht.table(e, st, 'T', readonly=sym('ro_T', rng=(0, 1)))
    h, y = sym('h', rng=(0, None)), sym('y', rng=(0, None))
    S = t.chain(h)
    st.assume(lt(h, t.p))
    st.assume(lt(y, app('n', S)))
    st.assume(eq(mk_urem(app('hash', S, y, rng=(0, None)), t.p), h))

    def post_next(o):
        keep(o)
        nm = 'the walk moves to the next entry and misses nothing'
        r = o.st.norm(o.ret)
        n = app('n', S)
        last = o.need(eq(add(y, ONE), n))
        if o.isnull(r):
            if not last:
                o.fail(nm, 'the walk ends although its bucket has more entries')
                return
            if down:
                none_skipped(o, ZERO, h, nm, 'the walk ends although a later bucket may hold entries')
            else:
                none_skipped(o, add(h, ONE), t.p, nm, 'the walk ends although a later bucket may hold entries')
            o.must(eq(t.now(o, 'readonly')), 'the end of a walk lifts the protection', 'the read-only flag is %s at the end of the walk' % t.now(o, 'readonly'))
            return
        o.equal(t.now(o, 'readonly'), t.vals['readonly'], 'the container is protected during a walk', 'the read-only flag becomes %s in the middle of a walk' % t.now(o, 'readonly'))
        a = single(r)
        if a is None or a.fn != 'elem' or a.args[0].fn != 'chain':
            o.undec(nm, 'position %s' % r)
            return
        x, z = a.args[0].args[1], a.args[1]
        if not last:
            o.must(conj(eq(x, h), eq(z, add(y, ONE))), nm, 'the position after entry %s of bucket %s is entry %s of bucket %s' % (y, h, z, x))
            return
        o.must(eq(z), nm, 'the walk enters a bucket at entry %s' % z)
        if down:
            o.must(lt(x, h), nm, 'the walk goes from bucket %s to %s' % (h, x))
            none_skipped(o, add(x, ONE), h, nm, 'buckets between are skipped')
        else:
            o.must(lt(h, x), nm, 'the walk goes from bucket %s to %s' % (h, x))
            none_skipped(o, add(h, ONE), x, nm, 'buckets between are skipped')
    ck.run(nxt, e, st, [t.T, app('elem', S, y)], post_next)

    # ---- get
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    t = ht.table(e, st, 'T')
    st.assume(lt(h, t.p))
    st.assume(lt(y, app('n', t.chain(h))))
    S = t.chain(h)
    cell = sym('out', ptr=True)
    st.facts = st.facts.assume(ne(cell))
    for lab, pos in (('entry', app('elem', S, y)), ('end', ZERO)):
        def post_get(o, pos=pos):
            nm = 'a position gives the entry it stands for'
            wk = app(ht.key, S, y) if pos is not ZERO else ZERO
            wd = (app(ht.payload[-1], S, y) if with_key else wk) if pos is not ZERO else ZERO
            o.equal(o.ret, wd, nm, 'gives %s, expected %s' % (o.ret, wd))
            if with_key:
                k = o.st.norm(o.rd(cell, 8, True))
                o.equal(k, wk, nm, 'gives the key %s, expected %s' % (k, wk))
            if o.st.log.get(t.eroot()):
                o.fail('walking keeps the contents', 'the entry is changed')
        ck.run(get, e, st.copy(), [pos] + ([cell] if with_key else []), post_get, label=lab)

    # ---- readonly
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    t = ht.table(e, st, 'T')
    fl = sym('flag', rng=(0, 1))

    def post_ro(o):
        o.equal(o.ret, t.vals['readonly'], 'setting the protection tells the previous one', 'returns %s' % o.ret)
        o.must(eq(t.now(o, 'readonly'), fl), 'setting the protection sets it', 'the flag becomes %s' % t.now(o, 'readonly'))
        if not t.untouched(o):
            o.fail('walking keeps the contents', 'the container is changed')
    ck.run(readonly, e, st, [t.T, fl], post_ro)
