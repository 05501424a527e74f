"""Named one-bit switches kept in words (debug.c, flags.c): every word symbolic bit by bit."""
from spec import *
import text as X

NAME = sym('name', ptr=True)
NAME2 = sym('name2', ptr=True)


def key_term(en, st, p):
    t = X.text_of(en, st, p)
    if isinstance(t, bytes):
        return t
    return st.norm(p)


class Flags:
    def __init__(s, ck, pre, mod, builtin):
        s.ck, s.pre, s.mod, s.builtin = ck, pre, mod, builtin
        s.all = [(k << 30) | (1 << i) for k in range(4) for i in range(30)]

    def engine(s, symbolic, hash_null=None):
        e = s.ck.engine()
        X.install(e)
        e.use_global_init = not symbolic
        pre = s

        def word(st, root, idx, size, ty):
            if not root[1].startswith(pre.mod + ':') or not isconst(st.norm(idx[0])):
                return None
            if ty is not None and ty.k == 'ptr':
                return None
            g = e.globobj.get(root[1])
            if g is None or g.const:
                return None
            n = size * 8
            off = st.norm(idx[0]).c
            lo = min(n, 32)
            r = E.from_bits([atom('bit', root[1], off, i, rng=(0, 1)) for i in range(lo)] + [atom('bit', root[1], off, 'up', rng=(0, 1))] * (n - lo))
            return r
        if symbolic:
            e.global_word = word
        M = e.models

        def create(en, st, ins, a):
            h = en.fresh(st, 'hsh_create', ptr=True)
            st.facts = st.facts.assume(ne(h)) or st.facts
            en.event(st, 'hsh_create', list(a), h, ins)
            return h
        M['hsh_create'] = create

        def insert(en, st, ins, a):
            en.event(st, 'hsh_insert', list(a), ZERO, ins)
            st.extra['names'] = st.extra.get('names', ()) + ((key_term(en, st, a[1]), st.norm(a[2])),)
            return ZERO
        M['hsh_insert'] = insert

        def retrieve(en, st, ins, a):
            p = st.norm(a[1])
            root, idx = en.root_of(st, p)
            if root[0] == 'P':
                c = le(idx[-1], strlen_of(root[1]))
                r = st.decide(c)
                if r is None:
                    raise NeedSplit(st.norm(c))
                if r is False:
                    X.raise_fault(en, st, 'overread', ins, 'a name is read past its end (%s)' % p)
            k = ('lookup', p)
            if k in st.extra:
                return st.extra[k]
            out = []
            for v in st.extra.get('answers', (ZERO,)):
                n = st.copy()
                n.extra[k] = v
                en.event(n, 'hsh_retrieve', list(a), v, ins)
                out.append((n, v))
            return out
        M['hsh_retrieve'] = retrieve
        for n in ('hsh_iterate', 'hsh_iterate_arg', 'hsh_destroy', 'hsh_readonly'):
            def h(en, st, ins, a, n=n):
                en.event(st, n, list(a), None, ins)
                return ZERO if ins.ty.k != 'void' else None
            M[n] = h

        def pinit(en, st, ins, a):
            n = app('nnames', rng=(0, 1 << 31))
            r = st.decide(eq(n))
            if r is None:
                raise NeedSplit(eq(n))
            st.extra['ro'] = not r
            return ZERO if r else app('nptr', 'pos', ZERO, ptr=True)
        M['hsh_init_position'] = pinit

        def pnext(en, st, ins, a):
            x = single(st.norm(a[1]))
            if x is None or x.fn != 'nptr' or x.args[0] != 'pos':
                raise GiveUp('position %s' % a[1])
            i = add(x.args[1], ONE)
            c = lt(i, app('nnames', rng=(0, 1 << 31)))
            r = st.decide(c)
            if r is None:
                raise NeedSplit(st.norm(c))
            if r is False:
                st.extra['ro'] = False
            return app('nptr', 'pos', i, ptr=True) if r else ZERO
        M['hsh_next_position'] = pnext

        def pget(en, st, ins, a):
            x = single(st.norm(a[0]))
            if x is None or x.fn != 'nptr' or x.args[0] != 'pos':
                raise GiveUp('position %s' % a[0])
            en.write(st, a[1], 8, app('nptr', 'key', x.args[1], ptr=True), en.prog.loc(ins))
            return app('datum', x.args[1])
        M['hsh_get_position'] = pget

        def ro(en, st, ins, a):
            st.extra['ro'] = st.norm(a[1]) is not ZERO
            en.event(st, 'hsh_readonly', list(a), None, ins)
            return ZERO if ins.ty.k != 'void' else None
        M['hsh_readonly'] = ro
        return e

    def test(s, e, st, f):
        """the value (test)(f) gives in state st, or None"""
        c = st.copy()
        c.events, c.errs = (), ()
        c.frames, c.term, c.retval = [], None, None
        e.steps = 0
        outs = e.run(c, s.pre + '_test', [const(f)])
        outs = [o for o in outs if o.term == 'ret']
        if len(outs) != 1 or not isinstance(outs[0].retval, Lin):
            return None
        v = outs[0].norm(outs[0].retval)
        return c_on(v)

    def start(s, symbolic=True, registered=True, answers=(ZERO,)):
        e = s.engine(symbolic)
        st = e.new_state()
        for p in (NAME, NAME2):
            st.facts = st.facts.assume(ne(p)).assume(le(ZERO, strlen_of(single(p))))
        st.extra['answers'] = tuple(answers)
        return e, st

    def compare(s, o, pre, post, g, nm):
        """the switch g is as before"""
        a, b = pre[g], post[g]
        if a is None or b is None:
            return o.undec(nm, 'value of the test for %#x not interpreted' % g)
        if a == b:
            return o.good(nm)
        if len(deep_bits(a)) <= 1 and len(deep_bits(b)) <= 1:
            return o.fail(nm, 'testing %#x gives %s afterwards and %s before' % (g, showc(b), showc(a)))
        o.undec(nm, '%s / %s' % (showc(a), showc(b)))

    def judge_change(s, o, e, pre, f, on, gs, what):
        post = {g: s.test(e, o.st, g) for g in gs}
        if f is not None:
            v = post.get(f, s.test(e, o.st, f))
            nm = 'turning a flag on makes its test true' if on else 'turning a flag off makes its test false'
            if v is None:
                o.undec(nm, 'not interpreted')
            elif v is (True if on else False):
                o.good(nm)
            elif v in (True, False) or len(deep_bits(v)) == 1:
                o.fail(nm, '%s of %#x leaves its test at %s' % (what, f, showc(v)))
            else:
                o.undec(nm, showc(v))
        for g in gs:
            if g != f:
                s.compare(o, pre, post, g, 'turning one flag on or off leaves every other flag alone')

    def run(s, by_value=True, thorough=False):
        ck = s.ck
        X_, P = s.all, s.pre
        e, st = s.start()
        pre = {g: s.test(e, st, g) for g in X_}
        gs = X_
        # switches that are told apart by their test
        fsel = X_ if thorough else [(k << 30) | (1 << i) for k in range(4) for i in (0, 1, 7, 15, 16, 28, 29)]
        # ---- initially
        e0, st0 = s.start(symbolic=False)

        def post(o):
            nm = 'at the start every flag is off'
            for g in X_:
                v = s.test(e0, o.st, g)
                (o.good(nm) if v is False else o.undec(nm, 'not interpreted') if v is None else o.fail(nm, 'flag %#x tests %s' % (g, showc(v))))
        ck.run(P + '_test', e0, st0, [const(1)], post, label='initially')
        # ---- by value
        if by_value:
            for f in fsel:
                for fn, on in ((P + '_set_flag', True), (P + '_unset_flag', False)):
                    e, st = s.start()
                    e1 = e

                    def post(o):
                        s.judge_change(o, e1, pre, f, on, gs, fn)
                    ck.run(fn, e, st, [const(f)], post, label='%#x' % f)
        # ---- by name
        for f in fsel:
            e, st = s.start(answers=(const(f), ZERO))
            st.extra['registered'] = True
            e2 = e

            def wordpath(o, w):
                x, y = (w, NAME) if str(w) <= str(NAME) else (NAME, w)
                r = o.st.decide(o.st.norm(eq(app('textcmp', x, y, rng=(-(1 << 31), (1 << 31) - 1)))))
                return r is True

            def c0(o, ch):
                c = app('char', single(NAME), ZERO)
                return o.need(eq(c, const(ord(ch))))

            def cls(o):
                """what the contract says about the name on this path: ('word', on) / ('set', f) / ('clear', f) / ('unknown',) / None"""
                for w, on in (('all', True), ('none', False)):
                    x, y = (w, NAME) if str(w) <= str(NAME) else (NAME, w)
                    c = eq(app('textcmp', x, y, rng=(-(1 << 31), (1 << 31) - 1)))
                    r = o.st.decide(o.st.norm(c))
                    if r is True:
                        return 'word', on
                look = {k[1]: v for k, v in o.st.extra.items() if isinstance(k, tuple) and k[0] == 'lookup'}
                v = look.get(NAME)
                if v is None:
                    return None
                if v is not ZERO:
                    return 'set', f
                if c0(o, '+'):
                    sign = True
                elif c0(o, '-'):
                    sign = False
                else:
                    return ('unknown',)
                v = look.get(add(NAME, ONE))
                if v is None:
                    return None
                if v is ZERO:
                    return ('unknown',)
                return 'set' if sign else 'clear', f

            def post(o):
                k = cls(o)
                if k is None:
                    return o.fail('a name is looked up', 'returns without having looked the name up')
                if k[0] == 'unknown':
                    return o.fail('an unknown name is fatal', 'returns')
                if k[0] == 'word':
                    nm = 'the word for %s acts on every flag' % ('all' if k[1] else 'none')
                    for g in X_:
                        v = s.test(e2, o.st, g)
                        (o.good(nm) if v is k[1] else o.undec(nm, 'not interpreted') if v is None else o.fail(nm, 'flag %#x tests %s' % (g, showc(v))))
                    return
                s.judge_change(o, e2, pre, f, k[0] == 'set', gs, 'setting by name')

            def nr(o, how):
                k = cls(o)
                nm = 'an unknown name is fatal'
                if (k is None or k[0] == 'unknown') and how in ('err_fatal', 'exit', 'err_internal', 'abort'):
                    if k is None and hash_missing(o):
                        return o.good('a name is fatal when nothing is registered')
                    if k is None:
                        return o.fail('a known name is accepted', 'ends in %s without having looked the name up' % how)
                    return o.good(nm)
                o.fail('a known name is accepted', 'ends in %s although the name is %s' % (how, k))

            def hash_missing(o):
                return any(c[0] == 'eq' and any(a.fn == 'gmem' for a in deep_atoms(c)) for c in o.st.path)
            ck.run(P + '_set', e, st, [NAME], post, label='name of %#x' % f, on_noreturn=nr)
        # ---- registering
        reg = s.pre + '_register'
        e, st = s.start(symbolic=False)
        bad = [0] + [(1 << i) | (1 << j) for i in range(30) for j in range(i)]
        if not thorough:
            bad = [0, 3, 5, (1 << 29) | 1, (1 << 29) | (1 << 28), (1 << 15) | (1 << 14), 0x3fffffff, 6]
        for k in range(4):
            for b in bad:
                e.steps = 0
                ck.run(reg, e, st.copy(), [const((k << 30) | b), NAME], lambda o: o.fail('a malformed flag is fatal', '%#x is accepted' % ((k << 30) | b)), label='malformed', on_noreturn=lambda o, how: o.good('a malformed flag is fatal'))
        fs = [f for f in X_ if f >> 30 != 3 or not s.builtin]
        for f in fs if thorough else [f for f in fsel if f in fs]:
            e.steps = 0
            after = []

            def post(o):
                nm = 'a flag is registered under its name'
                ns = o.st.extra.get('names', ())
                if len(ns) == 1 and ns[0][0] is NAME and ns[0][1] is const(f):
                    o.good(nm)
                else:
                    o.fail(nm, 'entered as %s' % (ns,))
                after.append(o.st.copy())
                nm = 'registering turns no flag on'
                for g in X_:
                    v = s.test(e, o.st, g)
                    (o.good(nm) if v is False else o.undec(nm, 'not interpreted') if v is None else o.fail(nm, 'flag %#x tests %s' % (g, showc(v))))
            ck.run(reg, e, st.copy(), [const(f), NAME], post, label='new')
            for a in after:
                for g in ([f] + [x for x in (f ^ (1 << 30), f ^ (1 << 31), (f & 0xc0000000) | ((f & 0x3fffffff) << 1 & 0x3fffffff or 1)) if x in fs]):
                    b = a.copy()
                    b.frames, b.term, b.events, b.path = [], None, (), ()
                    e.steps = 0
                    nm = 'a used flag cannot be registered again'
                    if g == f:
                        ck.run(reg, e, b, [const(g), NAME2], lambda o: o.fail(nm, '%#x is accepted twice' % g), label='used', on_noreturn=lambda o, how: o.good(nm))
                    else:
                        ck.run(reg, e, b, [const(g), NAME2], lambda o: o.good('an unused flag can be registered'), label='unused', on_noreturn=lambda o, how: o.fail('an unused flag can be registered', '%#x is refused after %#x' % (g, f)))
        if s.builtin:
            for f in [x for x in X_ if x >> 30 == 3]:
                e.steps = 0
                ck.run(reg, e, st.copy(), [const(f), NAME], lambda o: o.fail('the flags of the library are reserved', '%#x is accepted' % f), label='reserved', on_noreturn=lambda o, how: o.good('the flags of the library are reserved'))
        # ---- destroying turns everything off
        e, st = s.start()
        e3 = e

        def post(o):
            nm = 'after the end every flag is off'
            for g in X_:
                v = s.test(e3, o.st, g)
                (o.good(nm) if v is False else o.undec(nm, 'not interpreted') if v is None else o.fail(nm, 'flag %#x tests %s' % (g, showc(v))))
        ck.run(P + '_destroy', e, st, [], post)

    def names(s, fn):
        """the name reported for a flag is one it was registered with"""
        ck = s.ck
        e, st = s.start()
        F = sym('flag', rng=(1, (1 << 32) - 1))
        keys = []

        def post(o):
            nm = 'the name of a flag is the one it was registered with'
            r = o.ret
            x = single(r)
            if x is not None and x.fn == 'nptr' and x.args[0] == 'key':
                i = x.args[1]
                keys.append(i)
                o.must(eq(app('datum', i), F), nm, 'the key of entry %s is given although its flag is another' % i)
                (o.good if not o.st.extra.get('ro') else lambda n: o.fail(n, 'the names stay read-only'))('an iteration left early is ended')
            elif x is not None and x.fn == 'glob':
                o.good('an unregistered flag has a fixed name')
            else:
                o.undec(nm, 'gives %s' % r)
        ck.run(fn, e, st, [F], post)
        if not keys and not ck.undec:
            ck.violated(fn, 'the name of a flag is the one it was registered with', 'no path gives a registered name')


def deep_bits(c):
    if isinstance(c, bool):
        return set()
    if c[0] in ('and', 'or'):
        return set().union(*[deep_bits(x) for x in c[1]])
    return {a for a, k in c[1].t}


def c_on(v):
    """v != 0 for a word written in bits"""
    v2 = E.as_bits(v, 64) if any(a.fn == 'bit' for a, k in v.t) else None
    if v2 is None:
        return ne(v)
    if any(x == 1 and not isinstance(x, Atom) for x in v2):
        return True
    bs = {x for x in v2 if isinstance(x, Atom)}
    if not bs:
        return False
    if len(bs) == 1:
        return ne(next(iter(bs)).lin)
    return disj(*[ne(b.lin) for b in sorted(bs, key=str)])
