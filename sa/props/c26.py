"""C26: timers are separate, measure since their last start, and reset to zero."""
from fractions import Fraction
import itertools
import hashmodel as HM
import hist as H
from spec import *

NAMES = [sym('name1', ptr=True), sym('name2', ptr=True)]
GET = ('real', 'user', 'system')
UT, ST = 0, 16          # ru_utime, ru_stime


def fpconst(t):
    t = str(t)
    if t.startswith('0x'):
        import struct
        return Fraction(struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
    return Fraction(float(t))


def realin(x):
    """the value as a linear form over the reals: {atom or None: coefficient}; None when not of that form"""
    if isinstance(x, Lin):
        r = {None: Fraction(x.c)}
        for a, k in x.t:
            y = realin(a)
            if y is None:
                return None
            for z, c in y.items():
                r[z] = r.get(z, 0) + c * k
        return {z: c for z, c in r.items() if c}
    a = x
    f = a.fn
    if f == 'fp':
        c = fpconst(a.args[0])
        return {None: c} if c else {}
    if f in ('sitofp', 'uitofp', 'fpext'):
        return realin(a.args[0])
    if f in ('ffadd', 'ffsub'):
        p, q = realin(a.args[0]), realin(a.args[1])
        if p is None or q is None:
            return None
        r = dict(p)
        for z, c in q.items():
            r[z] = r.get(z, 0) + (c if f == 'ffadd' else -c)
        return {z: c for z, c in r.items() if c}
    if f == 'fma':
        p, q, c = [realin(y) for y in a.args]
        if p is None or q is None or c is None:
            return None
        if set(p) <= {None}:
            p, q = q, p
        return plus({z: k * q.get(None, 0) for z, k in p.items()}, c) if set(q) <= {None} else None
    if f in ('ffmul', 'ffdiv'):
        p, q = realin(a.args[0]), realin(a.args[1])
        if p is None or q is None:
            return None
        if f == 'ffmul' and set(p) <= {None}:
            p, q = q, p
        if not set(q) <= {None}:
            return None
        k = q.get(None, Fraction(0))
        if f == 'ffdiv':
            if not k:
                return None
            k = 1 / k
        return {z: c * k for z, c in p.items() if c * k}
    return {a: Fraction(1)}


def close(p, q):
    """equal up to the rounding of constants"""
    return set(p) == set(q) and all(abs(p[z] - q[z]) <= abs(q[z]) * Fraction(1, 10 ** 9) for z in q)


def clock(kind, k, sec, off):
    """seconds of one reading"""
    return {atom('time', kind, k, off): Fraction(1), atom('time', kind, k, off + 8, rng=(0, 999999)): Fraction(1, 10 ** 6)}


def minus(p, q):
    r = dict(p)
    for z, c in q.items():
        r[z] = r.get(z, 0) - c
    return {z: c for z, c in r.items() if c}


def plus(p, q):
    return minus(p, {z: -c for z, c in q.items()})


def setup(ck):
    e = ck.engine()
    e.use_global_init = True
    HM.install(e)
    e.distinct_keys = set(NAMES)
    M = e.models

    def reading(en, st, ins, p, kind, offs):
        k = st.extra.get('readings', 0)
        st.extra['readings'] = k + 1
        if st.norm(p) is not ZERO:
            for o in offs:
                en.access(st, add(p, const(o)), 16, ins, True)
                en.write(st, add(p, const(o)), 8, atom('time', kind, k, o).lin, en.prog.loc(ins))
                en.write(st, add(p, const(o + 8)), 8, atom('time', kind, k, o + 8, rng=(0, 999999)).lin, en.prog.loc(ins))
        st.extra['readlog'] = st.extra.get('readlog', ()) + ((kind, k),)
        return ZERO

    def gtod(en, st, ins, a):
        return reading(en, st, ins, a[0], 'real', (0,))
    M['gettimeofday'] = gtod

    def gru(en, st, ins, a):
        who = st.norm(a[0])
        if not isconst(who):
            raise GiveUp('getrusage of %s' % who)
        return reading(en, st, ins, a[1], {0: 'self', -1: 'children'}.get(who.c, 'who%d' % who.c), (UT, ST))
    M['getrusage'] = gru
    return e


def run(ck):
    e = setup(ck)
    st = e.new_state()
    for p in NAMES:
        st.facts = st.facts.assume(ne(p))

    def getter(st, g, n):
        c = st.copy()
        c.events, c.errs, c.path = (), (), ()
        c.frames, c.term, c.retval = [], None, None
        e.steps = 0
        outs = e.run(c, 'tim_get_' + g, [n])
        if len(outs) != 1:
            return None, 'several ends'
        o = outs[0]
        if o.term != 'ret':
            return None, o.term
        return o.norm(o.retval), None

    def verify(o, ghost, tot):
        for i, n in enumerate(NAMES):
            for g in GET:
                v, how = getter(o.st, g, n)
                nm = 'the %s total of a timer' % g
                if ghost[i] is None:
                    m2 = 'a timer that was never started is a fatal error'
                    (o.good(m2) if how and how.startswith('noreturn:err_') else o.undec(m2, how) if v is None else o.fail(m2, 'tim_get_%s gives %s' % (g, v)))
                    continue
                if v is None:
                    (o.fail if how.startswith('noreturn') or how.startswith('fault') else o.undec)(nm, 'tim_get_%s ends in %s' % (g, how))
                    continue
                want = tot.get((i, g), ({},))
                r = realin(v)
                if r is None:
                    o.undec(nm, 'value %s not interpreted' % v)
                elif any(close(r, w) for w in want):
                    o.good(nm)
                elif any(x is not None and deep(x, 'undef') for x in r):
                    o.fail(nm, 'tim_get_%s reads memory that was never set: %s' % (g, v))
                elif any(x is not None and (x.fn in ('hv', 'unk', 'mul', 'ite', 'fcmp') or x.fn.startswith('ff')) for x in r):
                    o.undec(nm, 'value %s not interpreted' % v)
                else:
                    o.fail(nm, 'tim_get_%s of timer %d gives %s, expected %s' % (g, i + 1, show(r), show(want[0])))

    def op(kind, i):
        n = NAMES[i]

        def args(ghost, st):
            st.extra['readlog'] = ()
            return [n]

        def judge(o, ghost, evs, noret):
            tot = dict(o.st.extra.get('totals', ()))
            marks = dict(o.st.extra.get('marks', ()))
            log = o.st.extra['readlog']
            if noret is not None:
                nm = 'a timer that was never started is a fatal error'
                if ghost[i] is None and kind != 'start' and noret in ('err_internal', 'err_fatal'):
                    o.good(nm)
                else:
                    o.fail('a started timer can be used', 'the call ends in %s' % noret)
                return None
            if ghost[i] is None and kind != 'start':
                o.fail('a timer that was never started is a fatal error', 'the call returns')
                return None
            g = list(ghost)
            if kind == 'start':
                if ghost[i] is None:
                    g[i] = 'zero'
                    for x in GET:
                        tot[i, x] = ({},)
                marks[i] = log
                for w in ('real', 'self', 'children'):
                    nm = 'starting notes the time'
                    (o.good if any(k == w for k, _ in log) else lambda m: o.fail(m, 'the %s time is not read' % w))(nm)
            elif kind == 'reset':
                g[i] = 'reset'          # the totals are those of a new timer, the start time is not
                for x in GET:
                    tot[i, x] = ({},)
            elif kind == 'stop':
                g[i] = 'time'
                d = {}
                for w, off in (('real', 0), ('self', UT), ('self', ST), ('children', UT), ('children', ST)):
                    d[w, off] = [minus(clock(w, k2, 0, off), clock(w, k1, 0, off)) for a, k1 in marks[i] if a == w for b, k2 in log if b == w]
                tot[i, 'real'] = tuple(d['real', 0])
                for x, off in (('user', UT), ('system', ST)):
                    tot[i, x] = tuple(plus(p, q) for p in d['self', off] for q in d['children', off])
                for x in GET:
                    if not tot[i, x]:
                        o.fail('stopping reads the time', 'no reading for the %s total' % x)
                        return None
            o.st.extra['totals'] = tuple(tot.items())
            o.st.extra['marks'] = tuple(marks.items())
            verify(o, g, tot)
            return tuple(g)
        fn = 'tim_' + kind
        return ('%s(%d)' % (fn, i + 1), fn, args, judge)

    def get(g, i):
        def args(ghost, st):
            return [NAMES[i]] if ghost[i] is not None else None

        def judge(o, ghost, evs, noret):
            if noret is not None:
                o.fail('a started timer can be used', 'the call ends in %s' % noret)
                return None
            verify(o, ghost, dict(o.st.extra.get('totals', ())))
            return ghost
        return ('tim_get_%s(%d)' % (g, i + 1), 'tim_get_' + g, args, judge)

    def printer(i):
        S = sym('stream', ptr=True)

        def args(ghost, st):
            st.facts = st.facts.assume(ne(S))
            return [S, NAMES[i]] if ghost[i] is not None else None

        def judge(o, ghost, evs, noret):
            if noret is None:
                verify(o, ghost, dict(o.st.extra.get('totals', ())))
                tot = dict(o.st.extra.get('totals', ()))
                nm = 'printing a timer shows its name and its three totals'
                vals = [realin(v) for ev in evs if ev.name in ('fprintf', 'printf') for v in ev.args]
                at, missing = 0, False
                for g in GET:
                    want = tot.get((i, g), ({},))
                    hit = [k for k, v in enumerate(vals) if v is not None and any(close(v, w) for w in want)]
                    if not hit:
                        missing = True
                        o.undec(nm, 'the %s total is not among the printed values' % g)
                        continue
                    later = [k for k in hit if k >= at]
                    if later or missing:
                        o.good(nm)
                        at = (later or [at])[0] + 1
                    else:
                        o.fail(nm, 'the totals are not printed in the order real, user, system')
            return ghost
        return ('tim_print_timer(%d)' % (i + 1), 'tim_print_timer', args, judge)

    ops = [op(k, i) for k in ('start', 'stop', 'reset') for i in (0, 1)] + [get(g, i) for g in GET for i in (0, 1)] + [printer(0)]
    H.explore(ck, e, st, (None, None), ops, signature=lambda g, s2: (g, H.statics(e, s2), HM.tables_signature(s2)), label='timers')
    return dict(minimum=60)


def deep(x, fn):
    return any(a.fn == fn for a in deep_atoms(x.lin))


def show(r):
    return ' + '.join('%s*%s' % (float(c), z) for z, c in sorted(r.items(), key=str)) or '0'
