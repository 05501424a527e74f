"""Where the text in a buffer came from: formatted output is tracked as a term over its inputs."""
from spec import *
import vararg as V


def text_of(e, st, p):
    """term for the NUL-terminated text at p, or None: bytes for a constant, a pointer atom otherwise"""
    p = st.norm(p)
    b = V.const_string(e, st, p)
    if b is not None and not any(True for x in st.log.get(e.root_of(st, p)[0], ())):
        return b
    try:
        root, idx = e.root_of(st, p)
    except (GiveUp, NeedSplit):
        return None
    return text_at(e, st, root, idx, st.log.get(root, ()), 0)


def concrete(e, st, p, limit=2000):
    """the bytes of the text at p when every one of them is known, else None"""
    t = text_of(e, st, p)
    if isinstance(t, bytes):
        return t
    out = bytearray()
    try:
        for i in range(limit):
            v = st.norm(e.read(st, add(p, const(i)), 1, ir.INTS[8]))
            if not isconst(v):
                return None
            if v.c == 0:
                return bytes(out)
            out.append(v.c & 255)
    except (GiveUp, NeedSplit, E.Fault):
        return None
    return None


def text_at(e, st, root, idx, log, depth):
    end = None          # the text is cut off here by a later terminator
    for en in reversed(log):
        if en.binders or en.guard is not True or len(en.idx) != len(idx):
            return None
        if any(st.decide(eq(a, b)) is False for a, b in zip(en.idx[:-1], idx[:-1])):
            continue
        v = en.val
        if all(st.decide(eq(a, b)) is True for a, b in zip(en.idx, idx)):
            if v is ZERO or isinstance(v, tuple) and v and v[0] == 'fill' and v[1] is ZERO:
                return b''
            if isinstance(v, tuple) and v and v[0] == 'copy' and depth < 6:
                t = text_at(e, st, v[1], v[2], v[3], depth + 1)
                # the whole text, with its end
                if isinstance(t, bytes):
                    L = const(len(t))
                elif t is not None:
                    L = strlen_of(t)
                else:
                    return None
                n = en.size if isinstance(en.size, Lin) else const(en.size)
                if end is not None and st.decide(le(end, n)) is True:
                    if st.decide(eq(end, L)) is True:
                        return t
                    if isinstance(t, bytes) and isconst(st.norm(end)) and st.norm(end).c < len(t):
                        return t[:st.norm(end).c]
                if st.decide(lt(L, n)) is True and (end is None or st.decide(le(L, end)) is True):
                    return t
                return None
        elif v is ZERO and en.size == 1 and end is None and all(st.decide(eq(a, b)) is True for a, b in zip(en.idx[:-1], idx[:-1])):
            d = st.norm(sub(en.idx[-1], idx[-1]))
            if st.decide(le(ONE, d)) is True:
                end = d
                continue
        return None
    if root[0] == 'P' and st.norm(idx[-1]) is ZERO:
        return root[1]
    if root[0] == 'G':
        g = e.globobj.get(root[1])
        if g is not None and g.init is not None and g.init[0] == 'str' and isconst(st.norm(idx[-1])):
            b = g.init[1][st.norm(idx[-1]).c:]
            return b[:b.index(b'\0')] if b'\0' in b else b
        return b''
    return None


def as_arg(e, st, x):
    if not isinstance(x, Lin):
        return '?'
    x = st.norm(x)
    if E._anyptr(x):
        t = text_of(e, st, x)
        if t is None:
            return app('unk', str(x))
        return t.decode('latin1') if isinstance(t, bytes) else t.lin
    return x


def alive(en, st, a, ins, what):
    """no argument points to released memory"""
    for x in a:
        if isinstance(x, Lin) and E._anyptr(st.norm(x)):
            try:
                root, idx = en.root_of(st, x)
            except (GiveUp, NeedSplit):
                continue
            at = en.is_freed(st, root, idx) if root in st.freed else None
            if at:
                raise_fault(en, st, 'use-after-free', ins, '%s reads memory released at %s' % (what, at))


def put(e, st, p, T, ins, maxlen=None):
    """the text T (atom) now stands at p"""
    root, idx = e.root_of(st, p)
    L = strlen_of(T)
    st.facts = st.facts.assume(le(ZERO, L)) or st.facts
    if maxlen is not None:
        f = st.facts.assume(le(L, maxlen))
        if f is not None:
            st.facts = f
    st.log[root] = st.log.get(root, ()) + (Entry((), True, tuple(st.norm(i) for i in idx), add(L, ONE), ('copy', ('P', T), (ZERO,), ()), e.prog.loc(ins)),)


def room(e, st, p, n, ins, what):
    """n bytes may be written at p: judged against the object's size"""
    try:
        root, idx = e.root_of(st, p)
    except GiveUp:
        return
    if root[0] == 'NULL':
        if st.decide(le(n, ZERO)) is not True:
            raise_fault(e, st, 'null-deref', ins, '%s into a null pointer' % what)
        return
    if root[0] in ('A', 'G'):
        sz = objsize(e, st, root, idx)
        if sz is None:
            return
        c = st.norm(le(add(idx[-1], n), sz))
        r = st.decide(c)
        if r is None and not set(weak(c)) - {'udiv'}:
            raise NeedSplit(c)
        if r is False:
            st.errs = st.errs + (('overrun', e.prog.loc(ins), '%s may write %s bytes into an object of %s' % (what, n, sz), e.callstack(st)),)
            raise E.Fault('overrun')


def raise_fault(e, st, kind, ins, msg):
    st.errs = st.errs + ((kind, e.prog.loc(ins), msg, e.callstack(st)),)
    raise E.Fault(kind)


def objsize(e, st, root, idx):
    if root[0] == 'A':
        return e.objsize(st, root, idx)
    g = e.globobj.get(root[1])
    if g is None:
        return None
    try:
        return const(g.mod.size(g.ty))
    except Exception:
        return None


def install(e):
    M = e.models

    def spr(name, fmt_i, size_i, va_i=None):
        def h(en, st, ins, a):
            buf = a[0]
            alive(en, st, a, ins, name)
            size = st.norm(a[size_i]) if size_i is not None else None
            if va_i is not None:
                apv = st.extra.get(('vatok', st.norm(a[va_i])), st.norm(a[va_i]))
                V.consume(en, st, a[va_i], name, ins)
                rest = (apv,)
                tag = 'vfmt'
            else:
                rest = tuple(as_arg(en, st, x) for x in a[fmt_i + 1:])
                tag = 'fmt'
            f = text_of(en, st, a[fmt_i])
            f = f.decode('latin1') if isinstance(f, bytes) else f.lin if f is not None else '?'
            T = atom(tag, f, *rest, ptr=True)
            st.facts = st.facts.assume(ne(T.lin)) or st.facts
            if size is not None:
                room(en, st, buf, size, ins, name)
            if st.norm(buf) is not ZERO and (size is None or st.decide(le(size, ZERO)) is not True):
                en.access(st, buf, 1, ins, True)
                put(en, st, buf, T, ins, sub(size, ONE) if size is not None else None)
            ret = en.fresh(st, name, rng=(-1, (1 << 31) - 1))
            en.event(st, name, list(a), ret, ins)
            return ret
        return h
    M['snprintf'] = spr('snprintf', 2, 1)
    M['sprintf'] = spr('sprintf', 1, None)
    M['vsnprintf'] = spr('vsnprintf', 2, 1, 3)
    M['vsprintf'] = spr('vsprintf', 1, None, 2)

    def slen(st, p, ins):
        t = text_of(e, st, p)
        if t is None:
            return None
        if isinstance(t, bytes):
            return const(len(t))
        return strlen_of(t)
    e.strlen_hook = slen

    def scmp(en, st, ins, a):
        x, y = text_of(en, st, a[0]), text_of(en, st, a[1])
        for p in a[:2]:
            en.access(st, p, 1, ins, False)
        if isinstance(x, bytes) and isinstance(y, bytes):
            return const((x > y) - (x < y))
        if x is not None and x is y:
            return ZERO
        if x is None or y is None:
            return app('pure', 'strcmp', *[st.norm(q) for q in a[:2]], rng=(-(1 << 31), (1 << 31) - 1))
        f = lambda t: t.decode('latin1') if isinstance(t, bytes) else t.lin
        fx, fy = f(x), f(y)
        if str(fx) <= str(fy):
            return app('textcmp', fx, fy, rng=(-(1 << 31), (1 << 31) - 1))
        return neg_lin(app('textcmp', fy, fx, rng=(-(1 << 31), (1 << 31) - 1)))
    M['strcmp'] = scmp

    def strftime(en, st, ins, a):
        size = st.norm(a[1])
        alive(en, st, a[:3], ins, 'strftime')
        room(en, st, a[0], size, ins, 'strftime')
        n = en.inst(st, ('fresh', 'strftime'))
        f = text_of(en, st, a[2])
        T = atom('date', st.norm(a[2]) if f is None else f.decode('latin1') if isinstance(f, bytes) else f.lin, n, ptr=True)
        st.facts = st.facts.assume(ne(T.lin)) or st.facts
        put(en, st, a[0], T, ins, sub(size, ONE))
        en.event(st, 'strftime', list(a), T.lin, ins)
        return strlen_of(T)
    M['strftime'] = strftime

    def gethostname(en, st, ins, a):
        room(en, st, a[0], st.norm(a[1]), ins, 'gethostname')
        T = atom('host', en.inst(st, ('fresh', 'host')), ptr=True)
        put(en, st, a[0], T, ins, sub(st.norm(a[1]), ONE))
        en.event(st, 'gethostname', list(a), None, ins)
        return ZERO
    M['gethostname'] = gethostname

    def sfind(name):
        def h(en, st, ins, a):
            t = text_of(en, st, a[0])
            en.access(st, a[0], 1, ins, False)
            if t is None:
                t = concrete(en, st, a[0])
            if isinstance(t, bytes) and isconst(st.norm(a[1])):
                t += b'\0'
                k = t.find(st.norm(a[1]).c & 255) if name == 'strchr' else t.rfind(st.norm(a[1]).c & 255)
                return ZERO if k < 0 else add(a[0], const(k))
            k = en.fresh(st, name, rng=(0, 1 << 40))
            n = st.copy()
            if t is not None and not isinstance(t, bytes):
                f = st.facts.assume(lt(k, strlen_of(t)))
                if f is not None:
                    st.facts = f
            try:        # the text ends inside the object that holds it
                root, idx = en.root_of(st, a[0])
                sz = en.extents[root] if root in en.extents else en.objsize(st, root, idx)
                f = sz is not None and st.facts.assume(lt(add(idx[-1], k), sub(sz, ONE) if isconst(st.norm(a[1])) and st.norm(a[1]).c & 255 else sz))
                st.facts = f or st.facts
            except (GiveUp, NeedSplit, Unresolved, Fault):
                pass
            return [(st, add(a[0], k)), (n, ZERO)]
        return h
    for n in ('strchr', 'strrchr'):
        M[n] = sfind(n)

    for n in ('ctime', 'asctime'):
        def ct(en, st, ins, a, n=n):
            r = en.fresh(st, n, ptr=True)
            st.facts = st.facts.assume(ne(r)) or st.facts
            en.event(st, n, list(a), r, ins)
            return r
        M[n] = ct


def neg_lin(x):
    return mul(x, -1)


def mentions(x, want):
    """does the text term x contain the text/term want (as an atom or argument)?"""
    if x is want:
        return True
    if isinstance(x, Lin):
        return any(mentions(a, want) for a, k in x.t) or (isinstance(want, Lin) and x is want)
    if isinstance(x, Atom):
        return (isinstance(want, Lin) and x.lin is want) or any(mentions(a, want) for a in x.args if isinstance(a, (Lin, Atom)))
    return False
