"""Typestate of va_list objects, and what printf-like calls are given."""
from spec import *

CONSUMERS = {'vfprintf': 2, 'vprintf': 1, 'vsnprintf': 3, 'vsprintf': 2, 'vsyslog': 2, 'vdprintf': 2, 'vasprintf': 2}
DIRECT = {'fprintf': 1, 'printf': 0, 'snprintf': 2, 'sprintf': 1, 'dprintf': 1, 'syslog': 1}


def key(st, p):
    return ('va', st.norm(p))


def problem(st, msg):
    st.extra['vaprob'] = st.extra.get('vaprob', ()) + (msg,)


def install(e, consumers=()):
    M = e.models

    def start(en, st, ins, a):
        st.extra[key(st, a[0])] = ('fresh', 'own')
        st.extra['valive'] = st.extra.get('valive', ()) + ((st.norm(a[0]), en.prog.loc(ins)),)

    def copy(en, st, ins, a):
        src = st.extra.get(key(st, a[1]))
        if src is None:
            problem(st, 'an argument list that was never started is copied (%s)' % en.prog.loc(ins))
        elif src[0] == 'used':
            problem(st, 'an argument list is copied after it has been consumed (%s)' % en.prog.loc(ins))
        st.extra[key(st, a[0])] = ('fresh' if src is None else src[0], src[1] if src else '?')
        st.extra['valive'] = st.extra.get('valive', ()) + ((st.norm(a[0]), en.prog.loc(ins)),)

    def end(en, st, ins, a):
        if st.extra.get(key(st, a[0])) is None:
            problem(st, 'an argument list that is not active is ended (%s)' % en.prog.loc(ins))
        st.extra[key(st, a[0])] = None
        st.extra['valive'] = tuple(x for x in st.extra.get('valive', ()) if x[0] is not st.norm(a[0]))
    for n in ('llvm.va_start', 'llvm.va_start.p0'):
        M[n] = start
    for n in ('llvm.va_copy', 'llvm.va_copy.p0'):
        M[n] = copy
    for n in ('llvm.va_end', 'llvm.va_end.p0'):
        M[n] = end

    def consumer(name, i, old):
        def h(en, st, ins, a):
            consume(en, st, a[i], name, ins)
            if old is not None:
                return old(en, st, ins, a)
            ret = en.fresh(st, name, rng=(-1, (1 << 31) - 1)) if ins.ty.k != 'void' else None
            en.event(st, name, list(a), ret, ins)
            return ret
        return h
    for n, i in list(CONSUMERS.items()) + list(consumers):
        M[n] = consumer(n, i, M.get(n))


def consume(en, st, p, name, ins):
    s = st.extra.get(key(st, p))
    if s is None:
        problem(st, '%s is given an argument list that is not active (%s)' % (name, en.prog.loc(ins)))
        return
    if s[0] == 'used':
        problem(st, '%s is given an argument list that has already been consumed (%s)' % (name, en.prog.loc(ins)))
    st.extra[key(st, p)] = ('used', s[1])


def judge(o, nm, ended=False):
    for m in o.st.extra.get('vaprob', ()):
        o.fail(nm, m)
    if not o.st.extra.get('vaprob'):
        o.good(nm)
    if ended:
        live = o.st.extra.get('valive', ())
        (o.good if not live else lambda n: o.fail(n, 'the argument list started at %s is never ended' % live[0][1]))('every argument list started or copied is ended')


def const_string(en, st, p):
    """the bytes of a constant string argument, or None"""
    try:
        root, idx = en.root_of(st, p)
    except Exception:
        return None
    if root[0] == 'P' and root[1] in en.literals and isconst(idx[-1]) and not st.log.get(root):
        return en.literals[root[1]][idx[-1].c:]
    if root[0] != 'G':
        return None
    g = en.globobj.get(root[1])
    if g is None or g.init is None or not isconst(idx[-1]):
        return None
    if g.init[0] == 'str':
        b = g.init[1][idx[-1].c:]
        return b[:b.index(b'\0')] if b'\0' in b else b
    if g.init[0] in ('zero', 'zeroinit', 'zeroinitializer'):
        return b''
    return None


import re
SPEC = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')


def conversions(fmt):
    """[(conversion letter, number of extra int arguments)]"""
    r = []
    for m in SPEC.finditer(fmt):
        if m.group(5) == b'%':
            continue
        r += ['*'] * ((m.group(2) == b'*') + (m.group(3) == b'*'))
        r.append(m.group(5).decode())
    return r


def format_args(o, ev, nm='a string that may be absent is never formatted'):
    """%s arguments of a constant-format print are not null"""
    i = DIRECT.get(ev.name)
    if i is None or len(ev.args) <= i:
        return
    f = const_string(o.e, o.st, ev.args[i])
    if f is None:
        return
    cs = conversions(f)
    rest = ev.args[i + 1:]
    for c, a in zip(cs, rest):
        if c == 's' and isinstance(a, Lin):
            a = o.st.norm(a)
            x = single(a)
            if a is ZERO:
                o.fail(nm, 'a null pointer is printed with %%s (%s)' % ev.loc)
            elif x is not None and x.fn == 'sym':
                if o.isnull(a):
                    o.fail(nm, '%s is printed with %%s although it may be null here (%s)' % (a, ev.loc))
                else:
                    o.good(nm)
