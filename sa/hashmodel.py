"""The contract of the hash module (decided by C01, C02) as a model for the modules that use it."""
from spec import *
import text as X


def subrun(en, st, f, args):
    """run f to its ends from inside a model: [(state, value)], ended states carry their term"""
    import copy
    saved = st.frames
    st.frames = []
    en.push(st, f, args, None)
    ir.find_loops(f)
    backs, exits, done = en.explore(st, 1, None)
    out = []
    for o in done + exits:
        if o.term == 'ret':
            v = o.retval
            o.term = o.retval = None
            o.frames = [fr.copy() for fr in saved]
            out.append((o, v))
        else:
            out.append((o, None))
    return out


def call_pointer(en, st, p, args):
    x = single(st.norm(p))
    if x is None or x.fn != 'fn':
        raise GiveUp('callback %s' % p)
    f = en.prog.funcs.get(x.args[0])
    if f is None:
        raise GiveUp('callback %s' % p)
    return subrun(en, st, f, args)


def key_of(en, st, p, h=None):
    p = st.norm(p)
    if h is not None and st.extra.get(('byptr', h)):
        return p
    t = X.concrete(en, st, p)
    if t is not None:
        return t
    t = X.text_of(en, st, p)
    if isinstance(t, Atom):
        p = t.lin
    x = single(p)
    if x is not None and x.fn == 'interned':      # the interned copy of a text is that text
        return x.args[0]
    return getattr(en, 'texts', {}).get(p, p)


def same(en, st, a, b):
    if a is b or a == b:
        return True
    d = getattr(en, 'distinct_keys', ())
    if isinstance(a, bytes) and isinstance(b, bytes):
        return False
    if (a in d or isinstance(a, bytes)) and (b in d or isinstance(b, bytes)):
        return False
    la, lb = (x if isinstance(x, Lin) else None for x in (a, b))
    if la is not None and lb is not None:
        if any(x is None or x.fn == 'alloc' for x in (single(la), single(lb))):
            raise GiveUp('keys %s and %s' % (a, b))
        c = eq(app('samekey', *sorted((la, lb), key=str), rng=(0, 1)), ONE)
        r = st.decide(c)
        if r is None:
            raise NeedSplit(c)
        return r
    raise GiveUp('keys %s and %s' % (a, b))


def table(en, st, h, ins, what):
    h = st.norm(h)
    t = st.extra.get(('tab', h))
    if t is None:
        if h is ZERO or st.decide(eq(h)) is True:
            st.errs = st.errs + (('null-deref', en.prog.loc(ins), '%s on a null table' % what, en.callstack(st)),)
            raise E.Fault('null-deref')
        raise GiveUp('%s on an unknown table %s' % (what, h))
    if t == 'destroyed':
        st.errs = st.errs + (('use-after-free', en.prog.loc(ins), '%s on a destroyed table' % what, en.callstack(st)),)
        raise E.Fault('use-after-free')
    return h, t


def keys_valid(en, st, h, t, ins):
    for k, raw, d in t:
        if isinstance(raw, Lin):
            try:
                root, idx = en.root_of(st, raw)
            except (GiveUp, NeedSplit):
                continue
            at = en.is_freed(st, root, idx) if root in st.freed else None
            if at:
                st.errs = st.errs + (('use-after-free', en.prog.loc(ins), 'a key of the table lies in memory released at %s' % (at,), en.callstack(st)),)
                raise E.Fault('use-after-free')


def install(e):
    M = e.models
    X.install(e)

    def create(en, st, ins, a):
        h = en.fresh(st, 'hsh_create', ptr=True)
        st.facts = st.facts.assume(ne(h)) or st.facts
        st.extra[('tab', h)] = ()
        x = single(st.norm(a[1])) if len(a) > 1 else None
        if x is not None and x.fn == 'fn' and 'pointer' in str(x.args[0]):
            st.extra[('byptr', h)] = True
        en.event(st, 'hsh_create', list(a), h, ins)
        return h
    M['hsh_create'] = create

    def lookup(en, st, ins, h, t, p):
        k = key_of(en, st, p, h)
        keys_valid(en, st, h, t, ins)
        for i, (kk, raw, d) in enumerate(t):
            if same(en, st, k, kk):
                return k, i
        return k, None

    def insert(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_insert')
        if st.extra.get(('ro', h)):
            en.event(st, 'err_internal', [], None, ins)
            return 'noreturn:err_internal'
        k, i = lookup(en, st, ins, h, t, a[1])
        en.event(st, 'hsh_insert', list(a), const(int(i is not None)), ins)
        if i is not None:
            return ONE
        st.extra[('tab', h)] = t + ((k, st.norm(a[1]), st.norm(a[2])),)
        return ZERO
    M['hsh_insert'] = insert

    def retrieve(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_retrieve')
        k, i = lookup(en, st, ins, h, t, a[1])
        en.event(st, 'hsh_retrieve', list(a), ZERO if i is None else t[i][2], ins)
        return ZERO if i is None else t[i][2]
    M['hsh_retrieve'] = retrieve

    def delete(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_delete')
        if st.extra.get(('ro', h)):
            return 'noreturn:err_internal'
        k, i = lookup(en, st, ins, h, t, a[1])
        en.event(st, 'hsh_delete', list(a), const(int(i is None)), ins)
        if i is None:
            return ONE
        st.extra[('tab', h)] = t[:i] + t[i + 1:]
        return ZERO
    M['hsh_delete'] = delete

    def destroy(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_destroy')
        if st.extra.get(('ro', h)):
            return 'noreturn:err_internal'
        st.extra[('tab', h)] = 'destroyed'
        en.event(st, 'hsh_destroy', list(a), None, ins)
        return None
    M['hsh_destroy'] = destroy

    def iterate(nargs):
        def h_(en, st, ins, a):
            h, t = table(en, st, a[0], ins, 'hsh_iterate')
            work, out = [st], []
            en.event(st, 'hsh_iterate', list(a), None, ins)
            for kk, raw, d in t:
                nxt = []
                for s2 in work:
                    for o, v in call_pointer(en, s2, a[1], [raw, d] + list(a[2:2 + nargs])):
                        if o.term is not None:
                            out.append((o, None))
                            continue
                        r = o.decide(ne(v))
                        if r is False:
                            nxt.append(o)
                        elif r is True:
                            out.append((o, ONE))
                        else:
                            o1, o2 = o.copy(), o.copy()
                            if o1.assume(ne(v)):
                                out.append((o1, ONE))
                            if o2.assume(eq(v)):
                                nxt.append(o2)
                work = nxt
            return out + [(o, ZERO) for o in work]
        return h_
    M['hsh_iterate'] = iterate(0)
    M['hsh_iterate_arg'] = iterate(1)

    def readonly(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_readonly')
        old = st.extra.get(('ro', h), False)
        st.extra[('ro', h)] = st.norm(a[1]) is not ZERO
        return const(int(old))
    M['hsh_readonly'] = readonly

    def pinit(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_init_position')
        st.extra[('ro', h)] = bool(t)
        return at(st, h, 0) if t else ZERO

    def at(st, h, i):
        r = app('hpos', h, const(i), ptr=True)
        st.facts = st.facts.assume(ne(r)) or st.facts
        return r

    def pos(st, p):
        x = single(st.norm(p))
        if x is None or x.fn != 'hpos':
            raise GiveUp('position %s' % p)
        return x.args[0], x.args[1].c

    def pnext(en, st, ins, a):
        h, t = table(en, st, a[0], ins, 'hsh_next_position')
        if st.norm(a[1]) is ZERO:
            st.extra[('ro', h)] = False
            return ZERO
        i = pos(st, a[1])[1] + 1
        if i < len(t):
            return at(st, h, i)
        st.extra[('ro', h)] = False
        return ZERO

    def pget(en, st, ins, a):
        if st.norm(a[0]) is ZERO:
            return ZERO
        h, i = pos(st, a[0])
        h, t = table(en, st, h, ins, 'hsh_get_position')
        if st.norm(a[1]) is not ZERO:
            en.write(st, a[1], 8, t[i][1], en.prog.loc(ins))
        return t[i][2]
    M['hsh_init_position'], M['hsh_next_position'], M['hsh_get_position'] = pinit, pnext, pget


def interning(e, names=('str_find',)):
    """the contract of the string pool (decided by C09): one stable copy per text"""
    def find(en, st, ins, a):
        p = st.norm(a[0])
        if p is ZERO or st.decide(eq(p)) is True:
            st.errs = st.errs + (('null-deref', en.prog.loc(ins), 'a null string is interned', en.callstack(st)),)
            raise E.Fault('null-deref')
        k = key_of(en, st, p)
        return interned(st, k)

    def interned(st, k):
        r = app('interned', k if isinstance(k, Lin) else str(k), ptr=True)
        st.facts = st.facts.assume(ne(r)) or st.facts
        return r

    def findn(en, st, ins, a):
        p, n = st.norm(a[0]), st.norm(a[1])
        if p is ZERO or st.decide(eq(p)) is True:
            return find(en, st, ins, a)
        t = X.concrete(en, st, p)
        if t is not None:
            if not isconst(n):
                raise GiveUp('a prefix of %s characters' % n)
            return interned(st, t[:n.c])
        k = key_of(en, st, p)
        T = X.text_of(en, st, p)
        x = single(n)
        if x is not None and x.fn in ('trunc', 'sext', 'uns'):      # the length of a text fits the parameter
            n = x.args[0]
        if isinstance(T, Atom) and st.decide(eq(n, strlen_of(T))) is True:
            return interned(st, k)
        raise GiveUp('a prefix of %s: %s characters' % (k, n))
    for n in names:
        e.models[n] = find
    if 'str_find' in names:
        e.models['str_findn'] = findn


def tables_signature(st):
    """the live tables of a state"""
    return tuple(sorted((str(k[1]), v if v == 'destroyed' else tuple(str(x[0]) for x in v)) for k, v in st.extra.items() if isinstance(k, tuple) and k[0] == 'tab'))
