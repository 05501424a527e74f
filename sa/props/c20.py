"""C20: argument lists keep their strings, in order, in a NULL-terminated vector that is always large enough."""
from spec import *
import models

A, V, OBJ = sym('arg', ptr=True), sym('argv', ptr=True), sym('object', ptr=True)
C, M = sym('argc', rng=(0, 1 << 28)), sym('argm', rng=(0, 1 << 28))
STR, LEN, W = sym('str', ptr=True), sym('len', rng=(0, 1 << 28)), sym('w', rng=(0, None))


def run(ck):
    F = fields_of(ck.prog, 'arg', 'Arg')
    for f in ('argc', 'argm', 'argv', 'object'):
        ck.need(f in F, 'field Arg.%s' % f)
    magic = macros(['ARG_MAGIC'])['ARG_MAGIC']
    magic -= (magic >> 31 & 1) << 32

    def engine():
        e = ck.engine()
        e.check_bounds = True

        def copy(name, n):
            def m(en, st, ins, a):
                r = en.fresh(st, name, ptr=True)
                st.facts = st.facts.assume(ne(r))
                en.event(st, name, list(a), r, ins)
                return r
            return m
        for nm in ('mem_strcpy', 'mem_strncpy', 'mem_finish', 'mem_create_strings'):
            e.models[nm] = copy(nm, 0)

        def grow(en, st, ins, a):
            en.event(st, 'mem_grow', list(a), None, ins)
            return None
        e.models['mem_grow'] = grow
        return e

    def start(k):
        e = engine()
        st = e.new_state()
        v = {'argc': C, 'argm': M, 'argv': V, 'object': OBJ}
        if 'magic' in F:
            v['magic'] = const(magic)
        obj(e, A, F, v)
        for x in (A, V, OBJ, STR):
            st.facts = st.facts.assume(ne(x))
        st.assume(le(add(C, const(k)), M))
        st.assume(le(app('strlen', single(STR)), const(1 << 29)))
        e.extents[('P', single(V))] = mul(M, 8)

        def vec(st2, r, ix, sz, ty):
            off = ix[-1]
            if sz != 8 or off.c % 8 or any(q % 8 for _, q in off.t):
                return None
            i = mk_udiv(off, const(8))
            c = eq(i, C)
            d = st2.decide(c)
            if d is None:
                raise NeedSplit(st2.norm(c))
            return ZERO if d else app('string', i, ptr=True)
        e.regions[('P', single(V))] = vec
        return e, st

    # ---- what the constructor establishes
    made = {}

    def post(o):
        p = o.ret
        o.must(ne(p), 'create gives a list')
        o.must(eq(o.fld(p, F, 'argc')), 'a new list is empty', 'it has %s strings' % o.fld(p, F, 'argc'))
        v, m = o.fld(p, F, 'argv'), o.fld(p, F, 'argm')
        (o.good if o.isnull(o.rd(v, 8, True)) else lambda n: o.fail(n, 'the first entry is %s' % o.rd(v, 8, True)))('the vector ends with NULL')
        capacity(o, v, m)
        m = o.st.norm(m)
        made['slack'] = m.c if isconst(m) else None
        ob = named(o.st.events, 'mem_create_strings')
        if len(ob) == 1:
            o.equal(o.fld(p, F, 'object'), ob[0][2].ret, 'a new list has string memory of its own')
        else:
            o.fail('a new list has string memory of its own', '%d string memories are made' % len(ob))

    def capacity(o, v, m):
        root, idx = o.e.root_of(o.st, v)
        z = o.e.extents.get(root)
        if z is None:
            z = o.e.objsize(o.st, root, idx)
        nm = 'the vector has as many entries as recorded'
        if z is None:
            return o.undec(nm, 'size of %s' % v)
        if o.st.freed.get(root) and o.e.is_freed(o.st, root, idx):
            return o.fail(nm, 'the vector is released')
        o.must(le(mul(m, 8), z), nm, 'the vector has %s bytes for %s entries' % (z, m))
    e = engine()
    st = e.new_state()
    ck.run('arg_create', e, st, [], post)

    # ---- additions
    def after_add(o, what, args):
        v = o.fld(A, F, 'argv')
        o.must(eq(o.fld(A, F, 'argc'), add(C, ONE)), 'the count is the number of strings', 'it becomes %s, expected %s' % (o.fld(A, F, 'argc'), add(C, ONE)))
        capacity(o, v, o.fld(A, F, 'argm'))
        o.equal(o.fld(A, F, 'object'), OBJ, 'the list keeps its string memory')
        o.must(eq(o.ret, A), 'the list itself is returned', 'returns %s' % o.ret)
        made_ = [x for x in flat(o.st.events) if x[2].name in ('mem_strcpy', 'mem_strncpy', 'mem_finish', 'mem_grow')]
        nm = 'the new argument is the given string'
        if len(made_) != 1 or made_[0][0] or made_[0][1] is not True:
            return o.fail(nm, '%d copies are made' % len(made_)) if all(x[1] is True and not x[0] for x in made_) else o.undec(nm, 'copies')
        ev = made_[0][2]
        got = [o.st.norm(x) for x in ev.args]
        want = {'arg_add': [('mem_strcpy', [OBJ, STR]), ('mem_strncpy', [OBJ, STR, app('strlen', single(STR))])],
                'arg_addn': [('mem_strncpy', [OBJ, STR, LEN])], 'arg_finish': [('mem_finish', [OBJ])]}[what]
        ok = False
        for n, a in want:
            if ev.name == n and len(a) == len(got) and all(x is o.st.norm(y) or o.need(eq(x, y)) for x, y in zip(got, a)):
                ok = True
        (o.good if ok else lambda n: o.fail(n, '%s%s is stored' % (ev.name, tuple(map(str, got)))))(nm)
        new = ev.ret
        if o.need(lt(W, C)):
            x = o.rd(add(v, mul(W, 8)), 8, True)
            o.equal(x, app('string', W, ptr=True), 'earlier arguments stay', 'argument %s of %s becomes %s' % (W, C, x))
        else:
            x = o.rd(add(v, mul(C, 8)), 8, True)
            o.equal(x, new, 'the new argument comes last', 'entry %s is %s' % (C, x))
            x = o.rd(add(v, mul(add(C, ONE), 8)), 8, True)
            (o.good if o.isnull(x) else lambda n: o.fail(n, 'entry %s is %s' % (add(C, ONE), x)))('the vector ends with NULL')

    def adds(k):
        for fn, args in (('arg_add', [A, STR]), ('arg_addn', [A, STR, LEN]), ('arg_finish', [A])):
            e, st = start(k)
            ck.run(fn, e, st, args, lambda o, fn=fn, args=args: after_add(o, fn, args))

    # the free room that every reachable list has: the largest amount that creating establishes and adding keeps
    top = made.get('slack')
    ck.need(top is not None, 'a constant initial capacity of the vector')
    k = None
    for cand in range(min(top, 4), 1, -1):
        if keeps(ck, engine, start, F, cand):
            k = cand
            break
    ck.rule('capacity invariant used for every list: argc + %d <= argm (established by arg_create, kept by every addition)' % (k or 1))
    adds(k or 1)

    # ---- pieces
    e, st = start(k or 1)

    def unchanged(o, nm='asking changes nothing'):
        ok = all(o.st.norm(o.fld(A, F, f)) is o.st.norm(x) for f, x in (('argc', C), ('argm', M), ('argv', V), ('object', OBJ))) and not o.st.log.get(('P', single(V)))
        (o.good if ok else lambda n: o.fail(n, 'the list is changed'))(nm)

    def post(o):
        unchanged(o, 'growing an argument leaves the finished ones alone')
        g = named(o.st.events, 'mem_grow')
        nm = 'a piece is added as given'
        if len(g) == 1 and not g[0][0] and g[0][1] is True:
            got = [o.st.norm(x) for x in g[0][2].args]
            ok = all(x is y or o.need(eq(x, y)) for x, y in zip(got, [OBJ, STR, LEN]))
            (o.good if ok else lambda n: o.fail(n, 'mem_grow%s' % (tuple(map(str, got)),)))(nm)
        elif o.need(eq(LEN)) and not g:
            o.good(nm)
        else:
            o.fail(nm, '%d pieces are added' % len(g))
    ck.run('arg_grow', e, st, [A, STR, LEN], post)

    # ---- questions
    e, st = start(k or 1)
    I = sym('item', rng=(-(1 << 31), (1 << 31) - 1))

    def post(o):
        unchanged(o)
        o.must(conj(le(ZERO, I), lt(I, C)), 'an index outside the range is a fatal error', 'item %s of %s strings is answered' % (I, C))
        o.equal(o.ret, app('string', I, ptr=True), 'an argument is found by its number', 'item %s gives %s' % (I, o.ret))

    def refused(o, how):
        if not how.startswith('err_'):
            o.fail('an index outside the range is a fatal error', 'ends in %s' % how)
        o.must(disj(lt(I, ZERO), le(C, I)), 'every index in the range is answered', 'item %s of %s strings is refused' % (I, C))
    ck.run('arg_get', e, st, [A, I], post, on_noreturn=refused)
    e, st = start(k or 1)

    def post(o):
        unchanged(o)
        o.must(eq(o.ret, C), 'the count is the number of strings', 'gives %s' % o.ret)
    ck.run('arg_count', e, st, [A], post)
    e, st = start(k or 1)
    P1, P2 = sym('pc', ptr=True), sym('pv', ptr=True)
    for x in (P1, P2):
        st.facts = st.facts.assume(ne(x))

    def post(o):
        unchanged(o)
        o.must(eq(o.rd(P1, 4), C), 'the vector is given out with its count', 'the count given is %s' % o.rd(P1, 4))
        o.equal(o.rd(P2, 8, True), V, 'the vector is given out with its count', 'the vector given is %s' % o.rd(P2, 8, True))
    ck.run('arg_get_vector', e, st, [A, P1, P2], post)
    return dict(minimum=15)


def keeps(ck, engine, start, F, k):
    """is `argc + k <= argm` kept by every addition?"""
    p = ck.probe()
    n = 0
    for fn, args in (('arg_add', [A, STR]), ('arg_addn', [A, STR, LEN]), ('arg_finish', [A])):
        e, st = start(k)
        e.check_bounds = False
        p.run(fn, e, st, args, lambda o: o.must(le(add(o.fld(A, F, 'argc'), const(k)), o.fld(A, F, 'argm')), 'kept', strict=True))
    return not p.viol and not p.undec and len(p.obs) >= 3
