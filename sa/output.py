"""What a path prints: the output calls of an abstract path as one sequence of pieces."""
from spec import *
import text as X
import vararg as V

SPEC = __import__('re').compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')
# output calls: index of the stream (None: standard output)
CALLS = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, '_IO_putc': 1, 'printf': None, 'puts': None, 'putchar': None}


def pieces(o, evs=None, stream=lambda x: True):
    """[('lit', str) | ('s', pointer) | ('num', Lin) | ('rep', char, Lin) | ('?', why)]"""
    st = o.st
    out = []

    def lit(s):
        if not s:
            return
        if out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + s)
        else:
            out.append(('lit', s))

    def rep(c, n):
        n = st.norm(n)
        if isconst(n):
            return lit(c * max(0, n.c))
        if o.need(le(n, ZERO)):
            return
        if out and out[-1][0] == 'rep' and out[-1][1] == c:
            out[-1] = ('rep', c, add(out[-1][2], n))
        else:
            out.append(('rep', c, n))

    def text(p):
        t = X.concrete(o.e, st, p)
        if t is not None:
            lit(t.decode('latin1'))
        else:
            out.append(('s', st.norm(p)))

    def num(x):
        x = st.norm(x)
        if isconst(x):
            lit(str(x.c))
        else:
            out.append(('num', x))

    def one(ev):
        a = ev.args
        n = ev.name
        if n in ('fputc', 'putc', '_IO_putc', 'putchar'):
            c = st.norm(a[0])
            if isconst(c):
                lit(chr(c.c & 255))
            else:
                out.append(('chr', c))
        elif n in ('fputs', 'puts'):
            text(a[0])
            if n == 'puts':
                lit('\n')
        else:
            k = 1 if n == 'fprintf' else 0
            f = V.const_string(o.e, st, a[k])
            if f is None:
                out.append(('?', 'format'))
                return
            rest = list(a[k + 1:])
            pos = 0
            for m in SPEC.finditer(f):
                lit(f[pos:m.start()].decode('latin1'))
                pos = m.end()
                flags, w, pr, ln, cv = m.groups()
                cv = cv.decode()
                if cv == '%':
                    lit('%')
                    continue
                width = rest.pop(0) if w == b'*' else (const(int(w)) if w else None)
                prec = rest.pop(0) if pr == b'*' else (const(int(pr)) if pr else None)
                x = rest.pop(0)
                if cv in 'di' and width is None and prec is None:
                    num(x)
                elif cv == 'u' and width is None and prec is None:
                    num(x)
                elif cv == 'c' and width is None:
                    c = st.norm(x)
                    lit(chr(c.c & 255)) if isconst(c) else out.append(('chr', c))
                elif cv == 's' and width is None and prec is None:
                    text(x)
                elif cv == 's' and width is not None and prec is None and X.text_of(o.e, st, x) == b'':
                    rep(' ', width)
                else:
                    out.append(('?', m.group().decode()))
            lit(f[pos:].decode('latin1'))

    def walk(evs):
        for ev in evs:
            if isinstance(ev, Ev):
                if ev.name in CALLS:
                    k = CALLS[ev.name]
                    if stream(None if k is None else st.norm(ev.args[k])):
                        one(ev)
                elif ev.name == 'vfprintf' and stream(st.norm(ev.args[0])):
                    out.append(('v', st.norm(ev.args[1])))
                elif ev.name in ('fwrite', 'vprintf'):
                    out.append(('?', ev.name))
            elif isinstance(ev, EvFor):
                inner = [x for x in flat((ev,)) if x[2].name in CALLS or x[2].name in ('vfprintf', 'fwrite')]
                if not inner:
                    continue
                x = ev.body[0] if len(ev.body) == 1 else None
                if isinstance(x, Ev) and x.name in ('fputc', 'putc', '_IO_putc', 'putchar') and isconst(st.norm(x.args[0])):
                    rep(chr(st.norm(x.args[0]).c & 255), sub(ev.hi, ev.lo))
                else:
                    out.append(('?', 'loop'))
            else:
                inner = [x for x in flat((ev,)) if x[2].name in CALLS or x[2].name in ('vfprintf', 'fwrite')]
                if inner:
                    if o.need(ev.cond):
                        walk(ev.a)
                    else:
                        walk(ev.b)
    walk(o.st.events if evs is None else evs)
    return out


def same(o, got, want, nm):
    """judge two sequences of pieces"""
    if any(x[0] == '?' for x in got):
        return o.undec(nm, 'output not interpreted: %s' % (got,))
    ok = len(got) == len(want)
    if ok:
        for x, y in zip(got, want):
            if x[0] != y[0] or len(x) != len(y):
                ok = False
                break
            for a, b in zip(x[1:], y[1:]):
                if isinstance(a, Lin) and isinstance(b, Lin):
                    if a is not b and not o.need(eq(a, b)):
                        ok = False
                elif a != b:
                    ok = False
    if ok:
        o.good(nm)
    elif any(weak(y) for x in got for y in x[1:] if isinstance(y, Lin)):
        o.undec(nm, 'prints %s' % (got,))
    else:
        o.fail(nm, 'prints %s, expected %s' % (show(got), show(want)))


def show(p):
    return ' '.join(repr(x[1]) if x[0] == 'lit' else '%r x %s' % (x[1], x[2]) if x[0] == 'rep' else '<%s>' % (x[1],) for x in p)
