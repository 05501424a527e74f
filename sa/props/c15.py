"""C15: fatal errors never return and report the original cause."""
from spec import *
import output as OUT
import text as X
import vararg as V

R, FMT = sym('routine', ptr=True), sym('format', ptr=True)
END = {'err_fatal': 'exit', 'err_fatal_errno': 'exit', 'err_internal': 'abort', 'err_warning': None}
# calls after which errno may hold another value
KEEPERR = {'__errno_location', 'llvm.va_start', 'llvm.va_start.p0', 'llvm.va_end', 'llvm.va_end.p0', 'llvm.va_copy', 'llvm.va_copy.p0', 'exit', 'abort', '_exit', 'strrchr', 'strlen'}


def run(ck):
    for fn in END:
        one(ck, fn)
    names(ck)
    return dict(minimum=20)


def names(ck):
    """the program is named by the last part of its path; a report names the program and the routine"""
    e = ck.engine()
    e.use_global_init = True
    X.install(e)
    e.MAXUNROLL = 400
    for n in ('log_error_va', 'log_error', 'fflush'):
        e.models[n] = lambda en, st, ins, a: ZERO if ins.ty.k != 'void' else None
    st0 = e.new_state()
    st0.facts = st0.facts.assume(ne(FMT))
    PATHS = (b'prog', b'/usr/local/bin/prog', b'./a/prog', b'a.b/', b'/', b'', b'x-' + b'y' * 300, None)
    lits = [ZERO if p is None else literal(e, st0, 'path%d' % i, p) for i, p in enumerate(PATHS)]
    for x in lits:
        if x is not ZERO:
            st0.facts = st0.facts.assume(le(const(4096), x))
    rt = literal(e, st0, 'rt', b'the_routine')

    def after(st, p, i):
        s = st.copy()
        s.events, s.path, s.errs, s.term, s.retval, s.frames = (), (), (), None, None, []
        e.steps = 0
        outs = [x for x in e.run(s, 'err_set_program_name', [lits[i]]) if x.term != 'unreachable']
        if len(outs) != 1 or outs[0].term != 'ret':
            ck.undecided('err_set_program_name', repr(p), [x.term for x in outs])
            return None
        s = outs[0]
        s.events, s.path, s.errs, s.term, s.retval, s.frames = (), (), (), None, None, []
        return s

    def named(o, want):
        nm = 'the program is named by the last part of its path'
        if want is None:
            return o.must(eq(o.ret), nm, 'no name was given; the name is %s' % o.ret)
        t = X.concrete(o.e, o.st, o.ret) if o.decide(eq(o.ret)) is False else None
        if t is None:
            return (o.fail if o.st.norm(o.ret) is ZERO else o.undec)(nm, 'the name is %s' % o.ret)
        (o.good if t == want else lambda n: o.fail(n, 'is %r, expected %r' % (t, want)))(nm)
    first = None
    for i, p in enumerate(PATHS):
        want = None if p is None else p.rsplit(b'/', 1)[-1]
        for start, lab in ((st0, 'set once'), (first, 'set again')):
            st = start and after(start, p, i)
            if st is None:
                continue
            ck.run('err_program_name', e, st.copy(), [], lambda o: named(o, want), label='%s %r' % (lab, p and p[:20]))
        if i == 0:
            first = st0 and after(st0, p, i)
        st = after(first, p, i) if first else None
        if st is None:
            continue
        for fn in END:
            for r in (rt, ZERO):
                def report(o, r=r):
                    got = OUT.pieces(o, stream=lambda x: 'stderr' in str(x))
                    k = [j for j, x in enumerate(got) if x[0] == 'v']
                    nm = 'the report names the program and the routine'
                    if any(x[0] == '?' for x in got) or len(k) != 1:
                        return o.undec(nm, 'output not interpreted: %s' % (got,))
                    if any(x[0] == 's' and x[1] is ZERO for x in got):
                        return o.fail('a name that was not given is not printed', str(got))
                    t = ''.join(x[1] for x in got[:k[0]] if x[0] == 'lit')
                    if any(x[0] not in ('lit', 'v') and not (x[0] == 's' and 'strerror' in str(x[1])) for x in got):
                        return o.undec(nm, 'output not interpreted: %s' % (got,))
                    if want and want.decode() not in t:
                        return o.fail(nm, 'the program %r is not named in %r' % (want, t))
                    if p and b'/' in p and '/' in t:
                        return o.fail(nm, 'the whole path of the program is in %r' % t)
                    if r is rt and 'the_routine' not in t:
                        return o.fail(nm, 'the routine is not named in %r' % t)
                    o.good(nm)
                ck.run(fn, e, st.copy(), [r, FMT], report, label='names: program %r%s' % (p and p[:20], '' if r is rt else ', no routine'), on_noreturn=lambda o, how, report=report: report(o))


def one(ck, fn):
    e = ck.engine()
    V.install(e)
    st = e.new_state()
    st.facts = st.facts.assume(ne(FMT))
    ERR = sym('errno_location', ptr=True)
    st.facts = st.facts.assume(ne(ERR))
    st.extra['errv'] = 0
    e.models['__errno_location'] = lambda en, s2, ins, a: ERR
    e.regions[('P', single(ERR))] = lambda s2, r, ix, sz, ty: app('errno', const(s2.extra['errv']), rng=(-(1 << 31), (1 << 31) - 1))

    def spoils(name, pos=None):
        def h(en, s2, ins, a):
            if pos is not None:
                V.consume(en, s2, a[pos], name, ins)
            s2.extra['errv'] += 1
            s2.log.pop(('P', single(ERR)), None)
            ret = None
            if ins.ty.k != 'void':
                ret = en.fresh(s2, name, rng=E.tyrange(ins.ty), ptr=ins.ty.k == 'ptr')
            en.event(s2, name, list(a), ret, ins)
            return ret
        return h
    for n in ('fflush', 'fprintf', 'fputs', 'fputc', 'putc', 'puts', 'fwrite', 'printf', 'log_error', 'log_info', 'syslog', 'fputc'):
        e.models[n] = spoils(n)
    for n, i in list(V.CONSUMERS.items()) + [('log_error_va', 2), ('log_info_va', 1)]:
        e.models[n] = spoils(n, i)

    def strerr(en, s2, ins, a):
        ret = app('strerror', s2.norm(a[0]), ptr=True)
        s2.facts = s2.facts.assume(ne(ret))
        en.event(s2, 'strerror', list(a), ret, ins)
        return ret
    e.models['strerror'] = strerr

    def stream(o, p, which):
        p = o.st.norm(p)
        k = single(p)
        return k is not None and which in str(k)

    def report(o):
        evs = [x[2] for x in flat(o.st.events)]
        V.judge(o, 'each use of the arguments gets an unconsumed argument list')
        for ev in evs:
            V.format_args(o, ev)
        nm = 'the message goes to the error stream'
        pr = [x for x in evs if x.name == 'vfprintf' and o.st.norm(x.args[1]) is o.st.norm(FMT)]
        if len(pr) != 1:
            o.fail(nm, 'the message is printed %d times' % len(pr))
        elif not stream(o, pr[0].args[0], 'stderr'):
            o.fail(nm, 'the message is printed to %s' % pr[0].args[0])
        else:
            o.good(nm)
        for x in evs:
            if x.name in ('fprintf', 'vfprintf') and not stream(o, x.args[0], 'stderr'):
                o.fail(nm, 'a part of the report is printed to %s' % x.args[0])
        nm = 'the message goes to the log'
        lg = [x for x in evs if x.name == 'log_error_va']
        if len(lg) == 1 and o.st.norm(lg[0].args[1]) is o.st.norm(FMT) and o.st.norm(lg[0].args[0]) is o.st.norm(R):
            o.good(nm)
        else:
            o.fail(nm, 'the message is logged %d times (%s)' % (len(lg), [x.args[:2] for x in lg]))
        if fn == 'err_fatal_errno':
            nm = 'the system error named is the one current at the call'
            es = [x for x in evs if x.name == 'strerror']
            want = app('errno', ZERO, rng=(-(1 << 31), (1 << 31) - 1))
            if not es:
                o.fail(nm, 'no system error is reported')
            for x in es:
                if o.st.norm(x.args[0]) is want:
                    o.good(nm)
                else:
                    o.fail(nm, 'the error number is read after calls that may have changed it (%s)' % x.loc)
            txt = app('strerror', want, ptr=True)
            for names, where in ((('fprintf', 'fputs'), 'the error stream'), (('log_error', 'syslog'), 'the log')):
                if any(x.name in names and any(o.st.norm(a) is txt for a in x.args) for x in evs):
                    o.good(nm)
                elif es and all(o.st.norm(x.args[0]) is want for x in es):
                    o.fail(nm, 'the system error is not reported to %s' % where)

    def post(o):
        if END[fn]:
            return o.fail('a fatal report never returns', '%s returns to its caller' % fn)
        o.good('a warning returns')
        report(o)

    def nr(o, how):
        nm = 'a fatal report never returns'
        if how != END[fn]:
            return o.fail(nm if END[fn] else 'a warning returns', '%s ends in %s' % (fn, how))
        o.good(nm)
        if how == 'exit':
            ev = [x[2] for x in flat(o.st.events) if x[2].name == 'exit'][-1]
            o.must(eq(ev.args[0], ONE), 'the process ends with status 1', 'exits with status %s' % ev.args[0])
        report(o)
    ck.run(fn, e, st, [R, FMT], post, on_noreturn=nr)
