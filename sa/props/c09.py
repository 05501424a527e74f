"""C09: interned strings are unique, stable and equal to what was asked for."""
import text as X
from seqs import *

W = sym('w', rng=(0, None))


class Pool:
    """a string pool; the hash table and the string memory are represented by their contracts (C01, C10)"""

    def __init__(s, ck):
        s.ck = ck
        s.F = fields_of(ck.prog, 'string', 'poolInfo')
        for f in ('string', 'hash'):
            ck.need(f in s.F, 'field poolInfo.%s' % f)
        for f in ('hsh_retrieve', 'hsh_insert', 'hsh_create', 'mem_create_strings', 'mem_strcpy', 'mem_strncpy', 'mem_grow', 'mem_finish'):
            ck.need(ck.prog.func(f) is not None, 'function ' + f)
        s.P, s.H, s.M = sym('P', ptr=True), sym('H', ptr=True), sym('M', ptr=True)
        s.s, s.len = sym('s', ptr=True), sym('len', rng=(0, 1 << 20))

    def start(s, glob=None):
        e = s.ck.engine()
        st = e.new_state()
        obj(e, s.P, s.F, {'string': s.M, 'hash': s.H})
        for x in (s.P, s.H, s.M, s.s):
            st.facts = st.facts.assume(ne(x))
        gk = 'string:global'
        if glob is not None:
            e.regions[('G', gk)] = lambda st2, r, ix, sz, ty: glob if ix[0] is ZERO and sz == 8 else None
        M = e.models
        M['hsh_create'] = lambda en, s2, ins, a: s.ev(en, s2, ins, 'hsh_create', a, en.allocate(s2, ins, const(64)))
        M['mem_create_strings'] = lambda en, s2, ins, a: s.ev(en, s2, ins, 'mem_create_strings', a, en.allocate(s2, ins, const(64)))
        M['mem_strcpy'] = lambda en, s2, ins, a: s.copy(en, s2, ins, 'mem_strcpy', a, s.content(s2, a[1]))
        M['mem_strncpy'] = lambda en, s2, ins, a: s.copy(en, s2, ins, 'mem_strncpy', a, app('prefix', s.content(s2, a[1]), s2.norm(a[2])))
        M['mem_grow'] = s.grow
        M['mem_finish'] = s.finish
        M['hsh_retrieve'] = s.retrieve
        M['hsh_insert'] = s.insert
        s2 = st
        s2.extra['pieces'] = sym('pieces')
        return e, st

    @staticmethod
    def ev(en, st, ins, nm, a, ret):
        en.event(st, nm, a, ret, ins)
        return ret

    def content(s, st, p):
        """the characters behind a pointer"""
        p = st.norm(p)
        return st.extra.get(('content', p), p)

    def copy(s, en, st, ins, nm, a, c):
        ret = en.allocate(st, ins, const(1))
        st.extra[('content', ret)] = c
        en.event(st, nm, a, ret, ins)
        return ret

    def grow(s, en, st, ins, a):
        root, idx = en.root_of(st, a[1])
        g = en.globobj.get(root[1]) if root[0] == 'G' else None
        nul = False
        if g is not None and g.init is not None and isconst(idx[-1]) and isconst(st.norm(a[2])) and 0 < st.norm(a[2]).c < 64:
            nul = all(en.read(st, add(a[1], const(k)), 1, ir.INTS[8]) is ZERO for k in range(st.norm(a[2]).c))
        if not nul:             # trailing NULs do not change the string
            st.extra['pieces'] = app('cat', st.extra['pieces'], s.content(st, a[1]), st.norm(a[2]))
        en.event(st, 'mem_grow', a, None, ins)

    def finish(s, en, st, ins, a):
        ret = en.allocate(st, ins, const(1))
        st.extra[('content', ret)] = st.extra['pieces']
        st.extra['pieces'] = sym('nopieces')
        en.event(st, 'mem_finish', a, ret, ins)
        return ret

    def lookup(s, st, h, c):
        for (h2, c2, d) in reversed(st.extra.get('inserted', ())):
            if h2 is h and c2 is c:
                return d
        return None

    def retrieve(s, en, st, ins, a):
        h, c = st.norm(a[0]), s.content(st, a[1])
        d = s.lookup(st, h, c)
        if d is None:
            b = app('present', h, c, rng=(0, 1))
            r = st.decide(eq(b))
            if r is None:
                raise NeedSplit(eq(b))
            if r or single(h).fn == 'alloc':
                d = ZERO
            else:
                d = app('interned', h, c, ptr=True)
                st.facts = st.facts.assume(ne(d))
        en.event(st, 'hsh_retrieve', list(a), d, ins)
        return d

    def insert(s, en, st, ins, a):
        h, c = st.norm(a[0]), s.content(st, a[1])
        if s.lookup(st, h, c) is not None:
            ret = ONE
        else:
            b = app('present', h, c, rng=(0, 1))
            r = st.decide(eq(b))
            if r is None:
                raise NeedSplit(eq(b))
            if r or single(h).fn == 'alloc':
                ret = ZERO
                st.extra['inserted'] = st.extra.get('inserted', ()) + ((h, c, st.norm(a[2])),)
            else:
                ret = ONE
        en.event(st, 'hsh_insert', list(a), ret, ins)
        return ret

    # ---- questions
    def new_entries(s, o):
        return [x for x in o.st.extra.get('inserted', ())]

    def pool_of(s, o, glob):
        """(hash, string memory) of the pool in use"""
        if glob is None or glob is not ZERO:
            return s.H, s.M
        g = o.e.read(o.st, app('glob', 'string:global', ptr=True), 8, ir.PTR)
        if o.isnull(g):
            o.fail('global operations work from the first call on', 'no global pool is created')
            return None, None
        return o.st.norm(o.fld(g, s.F, 'hash')), o.st.norm(o.fld(g, s.F, 'string'))


def run(ck):
    t = Pool(ck)

    # a new pool compares strings by their characters
    def made(o):
        evs = named(o.st.events, 'hsh_create')
        for b, g, ev in evs:
            for a, dflt, what in zip(ev.args, ('hsh_string_hash', 'hsh_string_compare'), ('hashed', 'compared')):
                x = single(o.st.norm(a))
                ok = a is ZERO or (x is not None and x.fn == 'fn' and x.args[0] == dflt)
                (o.good if ok else lambda n: o.fail(n, 'the pool\'s strings are %s by %s' % (what, a)))('pools identify strings by their characters')
    e, st = t.start()

    def post(o):
        o.must(ne(o.ret), 'create gives a pool')
        evs = named(o.st.events, 'hsh_create', 'mem_create_strings')
        h, m = o.st.norm(o.fld(o.ret, t.F, 'hash')), o.st.norm(o.fld(o.ret, t.F, 'string'))
        ok = any(x[2].name == 'hsh_create' and x[2].ret is h for x in evs) and any(x[2].name == 'mem_create_strings' and x[2].ret is m for x in evs)
        (o.good if ok else lambda n: o.fail(n, 'the pool gets %s and %s' % (h, m)))('a pool has its own table and memory')
        made(o)
    ck.run('str_pool_create', e, st, [], post)

    def find_like(fn, args, glob, content, lab):
        """the result is the interned string of `content`"""
        e, st = t.start(glob)

        def post(o):
            made(o)
            h, m = t.pool_of(o, glob)
            if h is None:
                return
            c = content(o)
            if c is None:
                return
            b = app('present', h, c, rng=(0, 1))
            new = t.new_entries(o)
            if single(h).fn != 'alloc' and not o.need(eq(b)):
                o.equal(o.ret, app('interned', h, c, ptr=True), 'asking again gives the same pointer', 'a string already in the pool is answered with %s' % o.ret)
                (o.good if not new else lambda n: o.fail(n, '%s' % (new,)))('asking again adds nothing')
                return
            # a new string
            if t.content(o.st, o.ret) is not c or o.ret is c:
                return o.fail('a new string is copied into the pool', 'the result %s holds %s, asked for %s' % (o.ret, t.content(o.st, o.ret), c))
            ok = [x for x in named(o.st.events, 'mem_strcpy', 'mem_strncpy', 'mem_finish') if x[2].ret is o.ret and o.st.norm(x[2].args[0]) is m]
            (o.good if ok else lambda n: o.fail(n, 'the copy does not live in the memory of the pool'))('a new string is copied into the pool')
            if len(new) == 1 and new[0][0] is h and new[0][1] is c and new[0][2] is o.ret:
                key = [x[2].args[1] for x in named(o.st.events, 'hsh_insert') if x[2].ret is ZERO]
                if key and o.st.norm(key[0]) is o.ret:
                    o.good('a new string is remembered under its own copy')
                else:
                    o.fail('a new string is remembered under its own copy', 'the table refers to %s, which the pool does not own' % key)
            else:
                o.fail('a new string is remembered under its own copy', 'entries added: %s' % ([(str(x[1]), str(x[2])) for x in new],))
        ck.run(fn, e, st, args, post, label=lab)

    plain = lambda o: t.s
    find_like('str_pool_find', [t.P, t.s], None, plain, None)
    find_like('str_find', [t.s], t.P, plain, 'later call')
    find_like('str_find', [t.s], ZERO, plain, 'first call')
    fin = lambda o: sym('pieces')
    find_like('str_pool_finish', [t.P], None, fin, None)
    find_like('str_finish', [], t.P, fin, 'later call')

    def cut(o):
        """the temporary buffer looked up holds exactly the first len characters"""
        evs = named(o.st.events, 'hsh_retrieve', 'hsh_insert')
        if not evs:
            o.fail('a length-limited request looks up exactly the given characters', 'nothing is looked up')
            return None
        x = evs[0][2]
        p = o.st.norm(x.args[1])
        nm = 'a length-limited request looks up exactly the given characters'
        if o.need(lt(W, t.len)):
            v = o.e.read(o.st, add(p, W), 1, ir.INTS[8])
            o.must(eq(v, o.e.char_at(o.st, single(t.s), W)), nm, 'character %s is %s' % (W, v), strict=True)
        else:
            v = o.e.read(o.st, add(p, t.len), 1, ir.INTS[8])
            o.must(eq(v), nm, 'the looked-up string goes on after %s characters' % t.len, strict=True)
        return t.content(o.st, p)

    for glob, lab in ((t.P, 'later call'), (ZERO, 'first call')):
        e, st = t.start(glob)
        # length-limited
        _start = t.start

        def start2(g=None):
            e, st = _start(g)
            st.assume(le(t.len, app('strlen', single(t.s))))
            e.extents[('P', single(t.s))] = t.len
            e.check_bounds = True
            return e, st
        t.start = start2
        find_like('str_findn', [t.s, t.len], glob, cut, lab)
        t.start = _start

    # existence tests
    for fn, args, glob, lab in (('str_pool_exists', [t.P, t.s], None, None), ('str_exists', [t.s], t.P, 'later call'), ('str_exists', [t.s], ZERO, 'first call')):
        e, st = t.start(glob)

        def post(o, glob=glob):
            made(o)
            new = t.new_entries(o)
            (o.good if not new else lambda n: o.fail(n, '%s' % (new,)))('an existence test adds nothing')
            if named(o.st.events, 'mem_strcpy', 'mem_strncpy', 'mem_grow'):
                o.fail('an existence test adds nothing', 'a string is copied')
            b = app('present', t.H, t.s, rng=(0, 1))
            if glob is ZERO or o.need(eq(b)):
                o.must(eq(o.ret), 'an existence test tells whether the string is there', 'tells %s for an absent string' % o.ret)
            else:
                o.must(ne(o.ret), 'an existence test tells whether the string is there', 'tells %s for a present string' % o.ret)
        ck.run(fn, e, st, args, post, label=lab)

    # copies, growing
    for fn, args, glob, call, rest, lab in (
            ('str_pool_copy', [t.P, t.s], None, 'mem_strcpy', (t.s,), None), ('str_copy', [t.s], t.P, 'mem_strcpy', (t.s,), 'later call'), ('str_copy', [t.s], ZERO, 'mem_strcpy', (t.s,), 'first call'),
            ('str_pool_copyn', [t.P, t.s, t.len], None, 'mem_strncpy', (t.s, t.len), None), ('str_copyn', [t.s, t.len], t.P, 'mem_strncpy', (t.s, t.len), 'later call'), ('str_copyn', [t.s, t.len], ZERO, 'mem_strncpy', (t.s, t.len), 'first call'),
            ('str_pool_grow', [t.P, t.s, t.len], None, 'mem_grow', (t.s, t.len), None), ('str_grow', [t.s, t.len], t.P, 'mem_grow', (t.s, t.len), 'later call'), ('str_grow', [t.s, t.len], ZERO, 'mem_grow', (t.s, t.len), 'first call')):
        e, st = t.start(glob)

        def post(o, glob=glob, call=call, rest=rest):
            made(o)
            h, m = t.pool_of(o, glob)
            if h is None:
                return
            nm = 'pieces go to the pool in the order given' if call == 'mem_grow' else 'a copy is private memory of the pool with the given characters'
            evs = [x[2] for x in named(o.st.events, 'mem_strcpy', 'mem_strncpy', 'mem_grow')]
            if len(evs) == 1 and evs[0].name == call and o.st.norm(evs[0].args[0]) is m and tuple(o.st.norm(x) for x in evs[0].args[1:]) == rest:
                if call == 'mem_grow' or evs[0].ret is o.ret:
                    o.good(nm)
                else:
                    o.fail(nm, 'the result is %s, not the copy' % o.ret)
            elif call != 'mem_grow' and o.ret is not None and any(x.ret is o.ret for x in evs) and t.content(o.st, o.ret) is (t.s if call == 'mem_strcpy' else app('prefix', t.s, t.len)):
                o.good(nm)
            elif not evs or len(evs) == 1:
                o.fail(nm, 'calls: %s' % (evs,))
            else:
                o.undec(nm, '%s' % (evs,))
        ck.run(fn, e, st, args, post, label=lab)

    # a unique string: begins with the prefix, was not there before, is there afterwards
    for glob, lab in ((t.P, 'later call'), (ZERO, 'first call')):
        e, st = t.start(glob)
        e.pathwise = 20
        e.check_bounds = True

        def again(s2, L):
            k = s2.extra.get('rounds', 0) + 1
            s2.extra['rounds'] = k
            return k < 4            # further rounds are like these: a number that was taken
        e.backhook = again

        def made_text(en, s2, ins, a, size=None):
            f = [s2.norm(x) for x in a]
            buf, fmt, rest = f[0], f[2 if size else 1], f[3 if size else 2:]
            fb = X.concrete(en, s2, fmt)
            c = app('made', fb.decode('latin1') if fb is not None else fmt, *rest, ptr=True)
            n = add(app('strlen', single(t.s)), const(12)) if fb == b'%s%d' and rest and rest[0] is t.s and not size else ONE
            root, idx = en.root_of(s2, add(buf, sub(n, ONE)))
            en.bounds(s2, root, tuple(idx), 1, ins, True)
            s2.extra[('content', buf)] = c
            en.event(s2, 'sprintf', list(a), None, ins)
            return app('strlen', single(c), rng=(0, 1 << 30))
        e.models['sprintf'] = made_text
        e.models['snprintf'] = lambda en, s2, ins, a: made_text(en, s2, ins, a, True)

        def post(o, glob=glob):
            o.good('global operations work from the first call on')
            h, m = t.pool_of(o, glob)
            if h is None:
                return
            c = single(t.content(o.st, o.ret))
            nm = 'a unique string begins with the prefix'
            if o.ret is t.s or t.content(o.st, o.ret) is t.s:
                return o.fail(nm, 'the prefix itself is given')
            src = c.args[1] if c is not None and c.fn == 'interned' else c.lin if c is not None else None
            b = single(src) if src is not None else None
            if b is None or b.fn != 'made':
                return o.undec(nm, 'the result holds %s' % t.content(o.st, o.ret))
            if len(b.args) > 1 and b.args[1] is t.s and str(b.args[0]).startswith('%s'):
                o.good(nm)
            elif t.s not in b.args[1:] or str(b.args[0])[:1] == '%' and str(b.args[0])[1:2] != '%' and len(b.args) > 1 and b.args[1] is not t.s and '$' not in str(b.args[0]) and '*' not in str(b.args[0]):
                o.fail(nm, 'it is made of %s' % (b.args,))
            else:
                o.undec(nm, 'it is made of %s' % (b.args,))
            nm = 'a unique string was not in the pool before and is afterwards'
            if c.fn == 'interned':
                return o.fail(nm, 'a string that was there is given')
            new = [x for x in t.new_entries(o) if x[1] is src and x[2] is o.ret and x[0] is h]
            if new:
                o.good(nm)
            elif not t.new_entries(o):
                o.fail(nm, 'it is not entered into the pool: the next one may be equal to it')
            else:
                o.undec(nm, 'entries added: %s' % (t.new_entries(o),))
        ck.run('str_unique', e, st, [t.s], post, label=lab)

    # walking a pool
    for fn, arg in (('str_pool_iterate', False), ('str_pool_iterate_arg', True)):
        pool_walk(ck, t, fn, arg)
    return dict(minimum=20)


def pool_walk(ck, t, fn, arg):
    """every string is shown once, the first non-zero answer ends the walk, and the table takes changes again afterwards.
    The table's own walk is represented by its contract (C02): positions 0,1,2.. of its entries, read-only until past the last or lifted."""
    cb, ar = sym('cb', ptr=True), sym('arg', ptr=True)
    e, st = t.start()
    st.facts = st.facts.assume(ne(cb))
    S = atom('lchain', single(t.H))
    n = app('n', S, rng=(0, 1 << 30))
    LOCK = ('P', single(t.H))
    # field 0 of the opaque table: is it read-only?
    e.regions[LOCK] = lambda st2, r, ix, sz, ty: ZERO if isconst(ix[-1]) and ix[-1].c == 0 else None

    def init(en, s2, ins, a):
        en.write(s2, t.H, 4, ite(le(n, ZERO), ZERO, ONE), ir.INTS[32])
        return ite(le(n, ZERO), ZERO, app('elem', S, ZERO))

    def pos(s2, p):
        p = s2.norm(p)
        if p.t and single(p) is None:
            for x, k in p.t:
                if x.fn == 'ite':
                    raise NeedSplit(s2.norm(x.args[0]))
        k = single(p)
        if k is None or k.fn != 'elem' or k.args[0] is not S:
            raise GiveUp('position %s' % p)
        return k.args[1]

    def nxt(en, s2, ins, a):
        i = add(pos(s2, a[1]), ONE)
        en.write(s2, t.H, 4, ite(le(n, i), ZERO, ONE), ir.INTS[32])
        return app('elem', S, i)

    def getpos(en, s2, ins, a):
        i = pos(s2, a[0])
        if s2.norm(a[1]) is not ZERO:
            en.write(s2, a[1], 8, app('datum', S, i, ptr=True), ir.PTR)
        return app('value', S, i, ptr=True)

    def ro(en, s2, ins, a):
        en.write(s2, t.H, 4, s2.norm(a[1]), ir.INTS[32])
        return sym('wasro')
    e.models.update(hsh_init_position=init, hsh_next_position=nxt, hsh_get_position=getpos, hsh_readonly=ro)
    e.fpmodels[single(cb)] = callback()

    def post(o):
        o.must(eq(o.rd(t.H, 4)), 'the pool takes new strings again after the walk', 'the table stays read-only', strict=True)
        last, shown = in_order(o, o.st.events, S, 'every string is shown once', n, (ar,) if arg else ())
        if shown is None:
            return
        if last is not None:
            o.must(conj(ne(last.ret), ne(o.ret)) if o.need(ne(last.ret)) else eq(o.ret), 'stopping is reported as non-zero', 'returns %s' % o.ret)
            if o.need(ne(last.ret)):
                return
        else:
            o.must(eq(o.ret), 'stopping is reported as non-zero', 'a complete walk returns %s' % o.ret)
        o.must(eq(shown, n), 'every string is shown once', '%s of %s strings are shown' % (shown, n))
    ck.run(fn, e, st, [t.P, cb] + ([ar] if arg else []), post)
