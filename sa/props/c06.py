"""C06: a list is the sequence its operations describe."""
from seqs import *


def run(ck):
    q = Seq(ck, 'list', 'list', 'data', 'datum', 'next')
    O = q.O
    for f in ('head', 'tail', 'count', 'magic'):
        ck.need(f in O, 'field list.%s' % f)
    magic = macros(['LST_MAGIC'])['LST_MAGIC']
    L, d = sym('L', ptr=True), sym('d', ptr=True)
    S = atom('lchain', single(L))
    n = app('n', S, rng=(0, (1 << 32) - 2))
    ent = {}

    def start(label=None):
        e = ck.engine()
        q.install(e)
        st = e.new_state()
        obj(e, L, O, {'magic': const(magic), 'head': app('elem', S, ZERO), 'tail': ite(le(n, ZERO), ZERO, app('elem', S, sub(n, ONE))), 'count': n})
        st.facts = st.facts.assume(ne(L))
        st.facts = st.facts.assume(le(n, const((1 << 31) - 2)))
        small(st, n)
        e.models['mem_get_object'] = lambda en, s2, ins, a: en.allocate(s2, ins, const(q.nodesize))
        e.models['mem_free_object'] = lambda en, s2, ins, a: m_release(en, s2, ins, a[1])
        return e, st

    def m_release(en, s2, ins, p):
        import models
        models.do_free(en, s2, ins, p)
        # a recycled object may be handed out again: its contents are unspecified from here on
        return None

    def state(o, expected, count, nm):
        h = o.fld(L, O, 'head')
        q.is_sequence(o, h, S, expected, nm)
        c = o.fld(L, O, 'count')
        o.must(eq(c, count), 'the length is exact', 'the count becomes %s, the list has %s elements' % (c, count))
        t = o.st.norm(o.fld(L, O, 'tail'))
        segs = q.segs(o, h)
        if not segs:
            (o.good if o.isnull(t) else lambda z: o.fail(z, 'the tail of the empty list is %s' % t))('the tail is the last element')
        else:
            g = segs[-1]
            last = g[1] if g[0] == 'node' else app('elem', g[1], sub(g[3], ONE))
            o.equal(t, last, 'the tail is the last element', 'the tail is %s, the last element is %s' % (t, last))
        o.equal(o.fld(L, O, 'magic'), const(magic), 'the handle stays valid')

    def same(o, nm='a query changes nothing'):
        state(o, [('run', ZERO, n)], n, nm)
        q.contents_kept(o, S, nm)
        q.only_freed(o, S, ZERO, ZERO, nm)

    # create
    e, st = start()

    def post(o):
        p = o.ret
        o.must(ne(p), 'create gives a list')
        for f in ('head', 'tail'):
            (o.good if o.isnull(o.fld(p, O, f)) else lambda z: o.fail(z, '%s is not null' % f))('a new list is empty')
        o.must(eq(o.fld(p, O, 'count')), 'a new list is empty', 'count is %s' % o.fld(p, O, 'count'))
        o.equal(o.fld(p, O, 'magic'), const(magic), 'a new list passes its own handle check')
        for b, g, ev in named(o.st.events, 'mem_create_objects'):
            o.must(le(const(q.nodesize), ev.args[0]), 'the element pool hands out whole elements', 'objects of %s bytes for elements of %d' % (ev.args[0], q.nodesize))
    e.models['mem_create_objects'] = lambda en, s2, ins, a: (en.event(s2, 'mem_create_objects', a, None, ins), en.allocate(s2, ins, const(64)))[1]
    ck.run('lst_create', e, st, [], post)

    # append / push
    for fn, exp in (('lst_append', [('run', ZERO, n), ('val', d)]), ('lst_push', [('val', d), ('run', ZERO, n)])):
        e, st = start()

        def post(o, exp=exp, fn=fn):
            state(o, exp, add(n, ONE), 'appending adds one element at the end' if 'append' in fn else 'pushing adds one element at the front')
            q.contents_kept(o, S, 'other elements keep their data')
            q.only_freed(o, S, ZERO, ZERO, 'other elements keep their data')
        ck.run(fn, e, st, [L, d], post)

    # pop / top
    e, st = start()

    def post(o):
        if o.need(eq(n)):
            o.must(eq(o.ret), 'popping an empty list gives NULL', 'gives %s' % o.ret)
            return same(o, 'popping an empty list changes nothing')
        o.equal(o.ret, app('datum', S, ZERO, ptr=True), 'pop gives the first datum', 'gives %s' % o.ret)
        state(o, [('run', ONE, n)], sub(n, ONE), 'pop removes exactly the first element')
        q.only_freed(o, S, ZERO, ONE, 'exactly the removed element is released')
        q.contents_kept(o, S, 'other elements keep their data')
    ck.run('lst_pop', e, st, [L], post)
    e, st = start()

    def post(o):
        same(o)
        if o.need(eq(n)):
            o.must(eq(o.ret), 'top of an empty list is NULL', 'gives %s' % o.ret)
        else:
            o.equal(o.ret, app('datum', S, ZERO, ptr=True), 'top is the first datum', 'gives %s' % o.ret)
    ck.run('lst_top', e, st, [L], post)

    # n-th
    k = sym('k', rng=(0, (1 << 32) - 1))
    for fn in ('lst_nth_get', 'lst_nth_position'):
        e, st = start()

        def post(o, fn=fn):
            same(o)
            inside = o.need(conj(le(ONE, k), le(k, n)))
            if not inside:
                o.must(eq(o.ret), 'no such element gives NULL', 'gives %s' % o.ret)
            elif fn == 'lst_nth_get':
                o.equal(o.ret, app('datum', S, sub(k, ONE), ptr=True), 'the n-th element is found', 'element number %s gives %s' % (k, o.ret))
            else:
                o.equal(o.ret, app('elem', S, sub(k, ONE)), 'the n-th element is found', 'element number %s gives %s' % (k, o.ret))
        ck.run(fn, e, st, [L, k], post)
    e, st = start()

    def post(o):
        if not o.need(conj(le(ONE, k), le(k, n))):
            return o.fail('setting an element that does not exist is fatal', 'returns normally')
        state(o, [('run', ZERO, n)], n, 'setting keeps the sequence')
        q.contents_kept(o, S, 'exactly the n-th element is set', (sub(k, ONE), d))
        w = app('elem', S, sub(k, ONE))
        o.equal(q.datum(o, w), d, 'exactly the n-th element is set', 'element number %s holds %s' % (k, q.datum(o, w)))

    def dead(o, how):
        o.must(neg(conj(le(ONE, k), le(k, n))), 'setting an existing element succeeds', 'ends in %s' % how)
    ck.run('lst_nth_set', e, st, [L, k, d], post, on_noreturn=dead)

    # member
    e, st = start()

    def post(o):
        same(o)
        st = o.st
        if o.need(ne(o.ret)):
            # some element was seen equal
            for c in st.path:
                for a in deep_atoms(c):
                    if a.fn == 'datum' and a.args[0] is S and st.decide(eq(st.norm(a.lin), st.norm(d))) is True:
                        o.must(conj(le(ZERO, a.args[1]), lt(a.args[1], n)), 'a reported member is in the list')
                        return
            return o.fail('a reported member is in the list', 'no element was found equal to the datum')
        m = st.norm(n)
        if not m.t and m.c <= 8:
            for i in range(m.c):
                if st.facts.assume(st.norm(eq(app('datum', S, const(i), ptr=True), d))) is not None:
                    return o.fail('every member is found', 'element %d equals the datum and is missed' % i)
            return o.good('every member is found')
        j = atom('sym', 'w!m')
        f = st.facts.assume(le(ZERO, j.lin))
        f = f and f.assume(lt(j.lin, n))
        f = f and f.assume(eq(app('datum', S, j.lin, ptr=True), d))
        if f is None:
            o.good('every member is found')
        else:
            s2 = st.copy()
            s2.facts = f
            if small_model(s2, n, j.lin):
                o.fail('every member is found', 'an element equal to the datum can be missed')
            else:
                o.undec('every member is found', '')
    ck.run('lst_member', e, st, [L, d], post)

    # length
    e, st = start()

    def post(o):
        same(o)
        o.must(eq(o.ret, n), 'the length is exact', 'gives %s for %s elements' % (o.ret, n))
    ck.run('lst_length', e, st, [L], post)

    # truncate
    e, st = start()

    def post(o):
        if o.need(le(n, k)):
            return same(o, 'truncating a shorter list changes nothing')
        state(o, [('run', ZERO, k)], k, 'truncation keeps exactly the first elements')
        q.only_freed(o, S, k, n, 'exactly the removed elements are released')
        q.contents_kept(o, S, 'other elements keep their data')
    ck.run('lst_truncate', e, st, [L, k], post)
    j = sym('j', rng=(0, None))
    for lab, pos in (('at a position', app('elem', S, j)), ('at the start', ZERO)):
        e, st = start()
        keep = ZERO
        if pos is not ZERO:
            st.assume(lt(j, n))
            keep = add(j, ONE)

        def post(o, keep=keep):
            state(o, [('run', ZERO, keep)], keep, 'truncation keeps exactly the first elements')
            q.only_freed(o, S, keep, n, 'exactly the removed elements are released')
            q.contents_kept(o, S, 'other elements keep their data')
        ck.run('lst_truncate_position', e, st, [L, pos], post, label=lab)

    # positions
    e, st = start()

    def post(o):
        same(o)
        o.equal(o.ret, ite(le(n, ZERO), ZERO, app('elem', S, ZERO)) if not o.need(eq(n)) else ZERO, 'a walk starts at the first element', 'starts at %s' % o.ret) if not o.need(eq(n)) else (o.good if o.isnull(o.ret) else lambda z: o.fail(z, 'position %s in an empty list' % o.ret))('a walk starts at the first element')
    ck.run('lst_init_position', e, st, [L], post)
    e, st = start()

    def post(o):
        same(o)
        if o.need(eq(n)):
            (o.good if o.isnull(o.ret) else lambda z: o.fail(z, 'position %s in an empty list' % o.ret))('the last position is the last element')
        else:
            o.equal(o.ret, app('elem', S, sub(n, ONE)), 'the last position is the last element', 'it is %s' % o.ret)
    ck.run('lst_last_position', e, st, [L], post)
    for lab, pos in (('element', app('elem', S, j)), ('end', ZERO)):
        for fn in ('lst_next_position', 'lst_get_position'):
            e, st = start()
            if pos is not ZERO:
                st.assume(lt(j, n))

            def post(o, pos=pos, fn=fn):
                q.contents_kept(o, S, 'a query changes nothing')
                if pos is ZERO:
                    (o.good if o.isnull(o.ret) else lambda z: o.fail(z, 'gives %s' % o.ret))('the end position gives NULL')
                elif fn == 'lst_get_position':
                    o.equal(o.ret, app('datum', S, j, ptr=True), 'a position gives its element', 'gives %s' % o.ret)
                elif o.need(eq(add(j, ONE), n)):
                    (o.good if o.isnull(o.ret) else lambda z: o.fail(z, 'gives %s' % o.ret))('the walk ends after the last element')
                else:
                    o.equal(o.ret, app('elem', S, add(j, ONE)), 'the walk goes to the next element', 'goes to %s' % o.ret)
            ck.run(fn, e, st, [pos], post, label=lab)
        e, st = start()
        if pos is not ZERO:
            st.assume(lt(j, n))

        def post(o, pos=pos):
            if pos is ZERO:
                o.good('the end position gives NULL')
                return
            q.contents_kept(o, S, 'setting a position sets its element', (j, d))
            o.equal(q.datum(o, app('elem', S, j)), d, 'setting a position sets its element', 'the element holds %s' % q.datum(o, app('elem', S, j)))
            state(o, [('run', ZERO, n)], n, 'setting keeps the sequence')
        ck.run('lst_set_position', e, st, [pos, d], post, label=lab)

    # iterate
    cb, ar = sym('cb', ptr=True), sym('arg', ptr=True)
    for fn, extra in (('lst_iterate', ()), ('lst_iterate_arg', (ar,))):
        e, st = start()
        st.facts = st.facts.assume(ne(cb))
        e.fpmodels[single(cb)] = callback()

        def post(o, extra=extra):
            same(o)
            last, shown = in_order(o, o.st.events, S, 'every element is shown once, in order', n, extra)
            if shown is None:
                return
            if last is not None and o.need(ne(last.ret)):
                o.must(ne(o.ret), 'stopping is reported as non-zero', 'returns %s after the callback asked to stop' % o.ret)
                o.must(le(shown, n), 'every element is shown once, in order')
            else:
                o.must(eq(o.ret), 'a complete iteration is reported as zero', 'returns %s' % o.ret)
                o.must(eq(shown, n), 'every element is shown once, in order', 'only %s of %s elements are shown' % (shown, n))
        ck.run(fn, e, st, [L, cb] + list(extra), post)
    return dict(minimum=20)
