"""C16: log messages reach exactly the open destinations."""
from spec import *
import vararg as V
import text as X
import hist as H

FMT, AP, R = sym('format', ptr=True), sym('ap', ptr=True), sym('routine', ptr=True)
ID, NAME, U = [sym(n, ptr=True) for n in ('ident', 'filename', 'stream')]
FAC = sym('facility', ptr=True)
PRINTS = ('fprintf', 'fputs', 'fwrite', 'fputc', 'putc', 'vfprintf', 'printf', 'puts', 'putchar', 'vprintf', 'dprintf', 'vdprintf')
STREAM_ARG = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fwrite': 3, 'fputc': 1, 'putc': 1}
LOGS = ('write', 'vsyslog', 'syslog', 'writev', 'send') + PRINTS
ERRNO_EINTR = 4


def setup(ck, e=None):
    if e is None:
        e = ck.engine()
        e.use_global_init = True
        e.skip_contained = True
        e.check_bounds = True
        V.install(e)
        X.install(e)
    M = e.models
    ERR = sym('errno_location', ptr=True)
    e.regions[('P', single(ERR))] = lambda s2, r, ix, sz, ty: s2.extra.get('errno', app('errno', ZERO, rng=(1, 200)))
    M['__errno_location'] = lambda en, s2, ins, a: ERR

    def write(en, st, ins, a):
        en.access(st, a[1], 1, ins, False)
        t = X.text_of(en, st, a[1])
        out = []
        key = ('what', len(st.events))
        # written whole / interrupted before anything was written (once) / another error
        for how in ('all', 'eintr', 'error'):
            n = st.copy()
            if how == 'eintr':
                if n.extra.get('eintr'):
                    continue
                n.extra['eintr'] = 1
            if how == 'error' and n.extra.get('eintr'):
                continue
            ret = st.norm(a[2]) if how == 'all' else const(-1)
            if how != 'all':
                n.extra['errno'] = const(ERRNO_EINTR) if how == 'eintr' else const(28)
            L = len(t) if isinstance(t, bytes) else None
            tt = t.decode('latin1') if isinstance(t, bytes) else t.lin if t is not None else ZERO
            en.event(n, 'write', [a[0], a[1], a[2], tt if isinstance(tt, Lin) else ZERO], ret, ins)
            n.extra[('how', len(n.events))] = how
            if ret is not None and isinstance(ret, Lin):
                f = n.facts.assume(le(const(-1), ret))
                if f is None:
                    continue
                n.facts = f
            out.append((n, ret))
        return out
    M['write'] = write

    def opn(en, st, ins, a):
        fd = en.fresh(st, 'fd', rng=(0, (1 << 31) - 1))
        n = st.copy()
        t = X.text_of(en, st, a[0])
        en.event(st, 'open', list(a) + [t.lin if isinstance(t, Atom) else ZERO], fd, ins)
        en.event(n, 'open', list(a) + [t.lin if isinstance(t, Atom) else ZERO], const(-1), ins)
        return [(st, fd), (n, const(-1))]
    for n in ('open', 'open64', 'creat'):
        M[n] = opn

    def prt(name):
        old = M.get(name)

        def h(en, st, ins, a):
            i = STREAM_ARG.get(name)
            X.alive(en, st, a, ins, name)
            rest = [X.as_arg(en, st, x) for k, x in enumerate(a) if k != i]
            if name in V.CONSUMERS:
                V.consume(en, st, a[V.CONSUMERS[name]], name, ins)
            ev = [a[i] if i is not None else sym('stdout?')]
            f = rest[0] if rest else ''
            T = None
            if name in ('fprintf', 'printf') and f == '%s' and len(rest) > 1:
                T = rest[1]
            elif name in ('fputs', 'puts'):
                T = rest[0]
            elif name in ('fprintf', 'printf'):
                T = atom('fmt', *rest, ptr=True).lin
            elif name in ('vfprintf', 'vprintf'):
                T = atom('vfmt', f, st.norm(a[V.CONSUMERS[name]]), ptr=True).lin
            if name in ('fprintf', 'printf') and not isinstance(f, str):
                st.extra['asformat'] = en.prog.loc(ins)
            en.event(st, name, ev + [T if isinstance(T, Lin) else ZERO], None, ins)
            return en.fresh(st, name, rng=(-1, (1 << 31) - 1)) if ins.ty.k != 'void' else None
        return h
    for n in PRINTS:
        M[n] = prt(n)

    def find(en, st, ins, a):
        r = app('interned', st.norm(a[0]), ptr=True)
        st.facts = st.facts.assume(ne(r)) or st.facts
        en.event(st, 'str_find', list(a), r, ins)
        return r
    M['str_find'] = find

    def openlog(en, st, ins, a):
        en.event(st, 'openlog', list(a), None, ins)
    M['openlog'] = openlog
    e.maxdepth = 12
    e.budget = 20000
    return e


def FULLARG(T, want, path=()):
    """does formatting T include all of `want` (no precision, %s all the way)?"""
    if isinstance(T, Lin):
        if want is T:
            return True
        x = single(T)
        return FULLARG(x, want) if x is not None else False
    if T is want or (isinstance(want, Lin) and T.lin is want):
        return True
    if T.fn != 'fmt' or not isinstance(T.args[0], str):
        return False
    ms = [m for m in V.SPEC.finditer(T.args[0].encode('latin1')) if m.group(5) != b'%']
    for m, a in zip(ms, T.args[1:]):
        if m.group(5) == b's' and m.group(3) is None and isinstance(a, (Lin, Atom)) and FULLARG(a, want):
            return True
    return False


def ends_line(T):
    x = single(T) if isinstance(T, Lin) else T
    if x is None:
        return None
    if x.fn == 'fmt' and isinstance(x.args[0], str):
        if x.args[0].endswith('%s') and len(x.args) > 1 and isinstance(x.args[-1], Lin):
            return ends_line(x.args[-1])
        return x.args[0].endswith('\n')
    return None


def run(ck):
    e = setup(ck)
    st = e.new_state()
    for p in (FMT, AP, ID, NAME, U):
        st.facts = st.facts.assume(ne(p))
    M = macros(['LOG_OPTION_NO_FULL', 'LOG_OPTION_FULL', 'LOG_ERR', 'LOG_INFO'], extra='#include <syslog.h>\n')
    g0 = {'F': None, 'N': None, 'U': None, 'S': False, 'full': True, 'ident': None}
    FATAL = ('exit', '_exit', 'err_fatal', 'err_fatal_errno')
    for p in (NAME, ID, R, FMT):
        st.facts = st.facts.assume(le(ZERO, strlen_of(single(p)))).assume(le(strlen_of(single(p)), const(1 << 12)))

    def internal(o, ev, noret, what):
        nm = 'opening %s that is open already is an internal error' % what
        if noret not in ('abort', 'err_internal'):
            o.fail(nm, 'it %s' % ('ends in ' + noret if noret else 'returns'))
        else:
            o.good(nm)
        return None

    def quiet(o, ev, nm='opening and closing writes no message'):
        bad = [x for x in ev if x.name in LOGS]
        (o.good if not bad else lambda n: o.fail(n, '%s at %s' % (bad[0].name, bad[0].loc)))(nm)

    def closes(o, ev, fd, nm):
        c = [x for x in ev if x.name == 'close']
        if len(c) != 1:
            o.fail(nm, 'the file is closed %d times' % len(c))
        else:
            o.equal(c[0].args[0], fd, nm, 'closes %s' % c[0].args[0])

    def no_blocks(o, nm):
        """nothing the log allocated is left"""
        live = []
        for root, lg in o.st.log.items():
            if root[0] == 'A' and isinstance(root[1], str) and not root[1].startswith('stack'):
                pass
        return live

    # ---------------------------------------------------------------- file
    def j_file(o, g, ev, noret):
        if g['F'] is not None:
            return internal(o, ev, noret, 'a log file')
        op = [x for x in ev if x.name == 'open']
        if not op:
            if noret:
                return o.fail('a log file is opened', 'ends in %s' % noret)
            return o.fail('a log file is opened', 'log_file returns without opening a file')
        nm = 'a log file that cannot be opened is fatal'
        if o.decide(lt(op[-1].ret, ZERO)) is True:
            if noret not in FATAL:
                o.fail(nm, 'returns with no file' if not noret else 'ends in %s' % noret)
            else:
                o.good(nm)
            return None
        if noret:
            return o.fail('a log file is opened', 'ends in %s' % noret)
        o.good('a log file is opened')
        op = [x for x in op if o.decide(lt(x.ret, ZERO)) is not True]
        if len(op) != 1:
            o.fail('a log file is opened', 'opened %d times' % len(op))
        quiet(o, ev)
        fl = op[0].args[1]
        if isconst(fl):
            w = (fl.c & 3) == 1 or (fl.c & 3) == 2
            (o.good if w and fl.c & 0o2000 and fl.c & 0o100 and not fl.c & 0o1000 else lambda n: o.fail(n, 'open flags 0%o' % fl.c))('the log file is opened for appending and created when absent')
        return dict(g, F=op[0].ret, N=op[0].args[-1], ident=app('interned', ID, ptr=True))

    def j_file_close(o, g, ev, noret):
        nm = 'closing the log file'
        if noret:
            return o.fail(nm, 'ends in %s' % noret)
        quiet(o, ev)
        if g['F'] is None:
            c = [x for x in ev if x.name == 'close']
            (o.good if not c else lambda n: o.fail(n, 'closes %s although no file is open' % c[0].args[0]))('closing what is not open does nothing')
            return dict(g)
        closes(o, ev, g['F'], 'closing the log file closes its descriptor')
        return dict(g, F=None, N=None)

    # ---------------------------------------------------------------- stream
    def j_stream(o, g, ev, noret):
        if g['U'] is not None:
            return internal(o, ev, noret, 'a log stream')
        if noret:
            return o.fail('a log stream is opened', 'ends in %s' % noret)
        quiet(o, ev)
        return dict(g, U=args_of(o), ident=app('interned', ID, ptr=True))

    def args_of(o):
        return o.st.extra['ustream']

    def is_std(o, p):
        p = o.st.norm(p)
        return single(p) is not None and single(p).fn == 'gmem'

    def j_stream_close(o, g, ev, noret):
        if noret:
            return o.fail('closing the log stream', 'ends in %s' % noret)
        quiet(o, ev)
        fc = [x for x in ev if x.name == 'fclose']
        if g['U'] is None:
            (o.good if not fc else lambda n: o.fail(n, 'closes %s although no stream is open' % fc[0].args[0]))('closing what is not open does nothing')
            return dict(g)
        if is_std(o, g['U']):
            (o.good if not fc else lambda n: o.fail(n, 'a standard stream is closed'))('the standard streams are not closed by the log')
        elif len(fc) == 1:
            o.equal(fc[0].args[0], g['U'], 'closing the log stream closes the stream', 'closes %s' % fc[0].args[0])
        else:
            o.fail('closing the log stream closes the stream', 'fclose is called %d times' % len(fc))
        return dict(g, U=None)

    # ---------------------------------------------------------------- syslog
    def j_sys(o, g, ev, noret):
        if g['S']:
            return internal(o, ev, noret, 'the system log')
        if noret:
            return o.fail('the system log is opened', 'ends in %s' % noret)
        quiet(o, ev)
        ol = [x for x in ev if x.name == 'openlog']
        if len(ol) != 1:
            o.fail('the system log is opened', 'openlog is called %d times' % len(ol))
        else:
            o.equal(ol[0].args[0], ID, 'the system log is opened under the given name')
        return dict(g, S=True)

    def j_sys_close(o, g, ev, noret):
        if noret:
            return o.fail('closing the system log', 'ends in %s' % noret)
        quiet(o, ev)
        cl = [x for x in ev if x.name == 'closelog']
        want = 1 if g['S'] else 0
        (o.good if len(cl) == want else lambda n: o.fail(n, 'closelog is called %d times' % len(cl)))('closing the system log closes it when it is open')
        return dict(g, S=False)

    def j_close(o, g, ev, noret):
        h = g
        for j in (j_file_close, j_stream_close, j_sys_close):
            h = j(o, h, ev, noret)
            if h is None:
                return None
        return h

    def opt(full):
        def j(o, g, ev, noret):
            if noret:
                return o.fail('options', 'ends in %s' % noret)
            return dict(g, full=full)
        return j

    # ---------------------------------------------------------------- messages
    def j_msg(pri, routine, va):
        def j(o, g, ev, noret):
            st = o.st
            op = [x for x in ev if x.name == 'open']
            if noret:
                if op and o.decide(lt(op[-1].ret, ZERO)) is True and noret in FATAL and g['F'] is not None:
                    o.good('a new dated file that cannot be opened is fatal')
                    return None
                return o.fail('sending a message returns', 'ends in %s' % noret)
            V.judge(o, 'each use of the arguments gets an unconsumed argument list')
            for x in ev:
                if x.name == 'strftime' and g['F'] is not None:
                    nm2, t = 'the dated name is made from the pattern the file was opened with', single(x.ret)
                    pat = t.args[0] if t is not None else None
                    if isinstance(pat, str) or isinstance(pat, Lin) and single(NAME) in deep_atoms(pat):
                        (o.good if isinstance(pat, Lin) else lambda n: o.fail(n, 'the pattern is %r' % pat))(nm2)
                    else:
                        o.undec(nm2, 'pattern %s' % pat)
                V.format_args(o, x)
            outs = [x for x in ev if x.name in LOGS]
            if g['F'] is None and g['U'] is None and not g['S']:
                (o.good if not outs else lambda n: o.fail(n, '%s at %s' % (outs[0].name, outs[0].loc)))('with nothing open a message is dropped')
            if st.extra.get('asformat'):
                o.fail('text is never taken for a format', 'a finished text is used as a format at %s' % st.extra['asformat'])
            h = dict(g)
            # --- date switch
            F = g['F']
            if F is not None:
                dates = [x for x in ev if x.name == 'strftime']
                for x in dates:
                    # "%Y" is two characters and makes four
                    L = strlen_of(single(NAME))
                    if st.facts.assume(le(L, const(200))) is not None and st.decide(le(L, const(200))) is not False:
                        c = st.norm(le(add(L, L), sub(x.args[1], ONE)))
                        if st.decide(c) is None and st.facts.assume(neg(c)).assume(le(L, const(200))) is not None:
                            o.fail('the name of a dated file has room to expand', 'only %s bytes for it' % x.args[1])
                        elif st.decide(c) is False:
                            o.fail('the name of a dated file has room to expand', 'only %s bytes for it' % x.args[1])
                        else:
                            o.good('the name of a dated file has room to expand')
                nm = 'a dated log file is switched when its name changes'
                if dates:
                    T = dates[-1].ret
                    same = st.norm(T) is st.norm(g['N'])
                    if not same:
                        a, b = sorted((T, g['N']), key=str)
                        c = eq(app('textcmp', a, b, rng=(-(1 << 31), (1 << 31) - 1)))
                        same = st.decide(st.norm(c))
                    cl = [x for x in ev if x.name == 'close']
                    op = [x for x in op if o.decide(lt(x.ret, ZERO)) is not True]       # a failed attempt is no opening
                    if same is True:
                        (o.good if not op and not cl else lambda n: o.fail(n, 'the file is reopened although its name is the same'))(nm)
                    elif same is False:
                        if len(op) != 1 or op[0].args[-1] is not st.norm(T):
                            o.fail(nm, 'the name changes and the new file is not opened')
                        elif len(cl) != 1:
                            o.fail(nm, 'the old file is closed %d times' % len(cl))
                        else:
                            o.equal(cl[0].args[0], F, nm, 'closes %s' % cl[0].args[0])
                            o.must(le(ZERO, op[0].ret), nm, 'goes on without the new file')
                            F = op[0].ret
                            h['F'], h['N'] = F, op[0].args[-1]
                    else:
                        o.undec(nm, 'names not compared')
                else:
                    o.fail(nm, 'the name for the current date is not computed')
            elif op:
                o.fail('no file is opened when none was open', 'opens a file at %s' % op[0].loc)
            msg = None
            # --- file
            wr = [x for x in ev if x.name in ('write', 'dprintf', 'vdprintf')]
            if F is None:
                (o.good if not wr else lambda n: o.fail(n, 'writes to descriptor %s at %s' % (wr[0].args[0], wr[0].loc)))('a message goes to no file when none is open')
            else:
                nm = 'a message goes to the open file exactly once'
                done = [x for x in wr if st.norm(x.ret) is not const(-1)] if all(x.name == 'write' for x in wr) else wr
                err = [x for x in wr if st.norm(x.ret) is const(-1)]
                if st.extra.get('errno') is const(28) and not done:
                    o.good('an error writing the file is not fatal')
                elif len(done) != 1:
                    o.fail(nm, 'it is written %d times%s' % (len(done), ', and given up after an interrupted write' if err else ''))
                else:
                    o.equal(done[0].args[0], F, nm, 'it is written to descriptor %s' % done[0].args[0])
                    complete(o, done[0].args[3], 'file', h, routine)
                    nm = 'the whole line is written'
                    if single(done[0].args[3]) is not None:
                        L = strlen_of(single(done[0].args[3]))
                        o.equal(done[0].args[2], L, nm, '%s bytes of it are written' % done[0].args[2])
                    el = ends_line(done[0].args[3])
                    if el is not None:
                        (o.good if el else lambda n: o.fail(n, 'the text written does not end in a newline'))('a message is a line')
            # --- stream
            pr = [x for x in ev if x.name in PRINTS and x.name not in ('dprintf', 'vdprintf')]
            if g['U'] is None:
                (o.good if not pr else lambda n: o.fail(n, 'prints to %s at %s' % (pr[0].args[0], pr[0].loc)))('a message goes to no stream when none is open')
            else:
                nm = 'a message goes to the open stream exactly once'
                for x in pr:
                    if o.st.norm(x.args[0]) is not o.st.norm(g['U']):
                        o.equal(x.args[0], g['U'], 'a message goes to no other stream', 'prints to %s' % x.args[0])
                hit = [x for x in pr if carries(x.args[1])]
                if len(hit) == 1:
                    o.good(nm)
                    complete(o, hit[0].args[1], 'stream', h, routine, std=is_std(o, g['U']))
                elif len(pr) == 1 and single(o.st.norm(pr[0].args[1])) is not None and single(o.st.norm(pr[0].args[1])).fn in ('unk', 'hv'):
                    o.undec(nm, 'text printed not interpreted')
                else:
                    o.fail(nm, 'it is printed %d times' % len(hit))
                i = max([k for k, x in enumerate(ev) if x.name in PRINTS] or [-1])
                fl = [x for x in ev[i + 1:] if x.name == 'fflush' and (o.st.norm(x.args[0]) is ZERO or o.st.norm(x.args[0]) is o.st.norm(g['U']))]
                (o.good if fl else lambda n: o.fail(n, 'the stream is not flushed after the message'))('a message does not stay in the stream buffer')
            # --- syslog
            sy = [x for x in ev if x.name in ('vsyslog', 'syslog')]
            if not g['S']:
                (o.good if not sy else lambda n: o.fail(n, '%s at %s' % (sy[0].name, sy[0].loc)))('a message goes to no system log when none is open')
            else:
                nm = 'a message goes to the system log exactly once'
                if len(sy) != 1:
                    o.fail(nm, 'it is sent %d times' % len(sy))
                else:
                    p = sy[0].args[0]
                    if isconst(p):
                        (o.good if p.c & 7 == pri & 7 else lambda n: o.fail(n, 'priority %d' % p.c))('the system log gets the right priority')
                    if sy[0].name == 'vsyslog':
                        o.equal(sy[0].args[1], FMT, nm, 'formatted with %s' % sy[0].args[1])
            # --- cut only at the end of a buffer
            for x in ev:
                if x.name == 'vsnprintf' and isconst(x.args[1]):
                    try:
                        root, idx = e.root_of(st, x.args[0])
                        sz = X.objsize(e, st, root, idx)
                    except GiveUp:
                        continue
                    if sz is not None and isconst(sz) and isconst(idx[-1]):
                        (o.good if x.args[1].c >= sz.c - idx[-1].c - 8 else lambda n: o.fail(n, 'cut at %s bytes in a buffer of %s' % (x.args[1], sz)))('a long message is cut only where its buffer ends')
            return h
        return j

    def carries(T):
        return isinstance(T, Lin) and any(a.fn == 'vfmt' and a.args[0] is FMT for a in deep_atoms(T))

    def complete(o, T, where, g, routine, std=False):
        nm = 'the message in the %s is completely formatted' % where
        x = single(T)
        if x is None or x.fn in ('unk', 'hv'):
            return o.undec(nm, 'text not interpreted')
        v = [a for a in deep_atoms(T) if a.fn == 'vfmt']
        if not v:
            return o.fail(nm, 'the text %s has nothing of the message' % T)
        if v[0].args[0] is not FMT:
            return o.fail(nm, 'formatted with %s' % v[0].args[0])
        if not FULLARG(x, v[0].lin):
            return o.fail(nm, 'the message is only a truncated part of %s' % T)
        o.good(nm)
        if std:
            return
        if routine is not None and not o.isnull(routine):
            (o.good if FULLARG(x, routine) else lambda n: o.fail(n, 'the text is %s' % T))('the routine is named in the %s' % where)
        nm = 'the preamble is there exactly when asked for'
        has = single(ID) in deep_atoms(T)
        if has == g['full']:
            o.good(nm)
        else:
            o.fail(nm, 'the text is %s' % T)

    def reset(st, extra):
        for k in ('errno', 'eintr', 'vaprob', 'valive', 'asformat'):
            st.extra.pop(k, None)
        for k in [k for k in st.extra if isinstance(k, tuple) and k[0] in ('va', 'how')]:
            del st.extra[k]
        st.extra.update(extra)

    def own(st, r):
        for p in (ID, NAME):
            if p in r:
                st.log[('P', single(p))] = ()
        return r

    def mk(args, extra=None, va=False, cond=None):
        def f(g, st):
            if cond is not None and not cond(g):
                return None
            reset(st, dict(extra(g, st)) if extra else {})
            # what was passed earlier is the caller's to reuse
            for p in (ID, NAME):
                st.log[('P', single(p))] = (Entry((), True, (ZERO,), ONE, ZERO, 'caller'),)
            if va:
                st.extra[('va', AP)] = ('fresh', 'arg')
            r = args(g, st) if callable(args) else list(args)
            return own(st, r)
        return f

    def stdstream(name):
        def f(g, st):
            e.globaddr(e.prog.func('log_stream').mod, name)
            p = app('gmem', name, ZERO, 8, ptr=True)
            st.facts = st.facts.assume(ne(p)) or st.facts
            st.extra['ustream'] = p
            return [ID, p]
        return f

    def ustream(g, st):
        st.extra['ustream'] = U
        for s in ('stdout', 'stderr'):
            st.facts = st.facts.assume(ne(sub(U, app('gmem', s, ZERO, 8, ptr=True)))) or st.facts
        return [ID, U]

    ops = [
        ('log_file(name)', 'log_file', mk([ID, NAME]), j_file),
        ('log_file(0,0)', 'log_file', mk([ZERO, ZERO]), j_file_close),
        ('log_stream(s)', 'log_stream', mk(ustream), j_stream),
        ('log_stream(stdout)', 'log_stream', mk(stdstream('stdout')), j_stream),
        ('log_stream(stderr)', 'log_stream', mk(stdstream('stderr')), j_stream),
        ('log_stream(0,0)', 'log_stream', mk([ZERO, ZERO]), j_stream_close),
        ('log_syslog(id)', 'log_syslog', mk([ID]), j_sys),
        ('log_syslog(0)', 'log_syslog', mk([ZERO]), j_sys_close),
        ('log_close', 'log_close', mk([]), j_close),
        ('option(no full)', 'log_option', mk([const(M['LOG_OPTION_NO_FULL'])]), opt(False)),
        ('option(full)', 'log_option', mk([const(M['LOG_OPTION_FULL'])]), opt(True)),
        ('log_error_va', 'log_error_va', mk([R, FMT, AP], va=True), j_msg(M['LOG_ERR'], R, True)),
        ('log_info_va', 'log_info_va', mk([FMT, AP], va=True), j_msg(M['LOG_INFO'], None, True)),
        ('log_error', 'log_error', mk([R, FMT]), j_msg(M['LOG_ERR'], R, False)),
        ('log_info', 'log_info', mk([FMT]), j_msg(M['LOG_INFO'], None, False)),
    ]

    def signature(g, st):
        gs = tuple(sorted((k, str(v) if k in ('full', 'S') else v is None if k != 'U' else (None if v is None else str(v))) for k, v in g.items()))
        return gs, H.statics(e, st, lambda key: not key.startswith('log'))
    H.explore(ck, e, st, g0, ops, signature, label='log')
    facility(ck, st)
    facility(ck, st, True)
    directories(ck)
    return dict(minimum=100)


def directories(ck):
    """the directories a log file is to stand in exist when it is opened"""
    nm = 'the directories of a log file are made before it is opened'
    for path in (b'l.txt', b'a/l.txt', b'dd/e/fff/l.txt', b'/x/yy/l', b'/l', b'a/b/c/d/e/f'):
        e = setup(ck)
        e.skip_contained = False
        e.unroll = 80
        st = e.new_state()
        st.facts = st.facts.assume(ne(ID)).assume(le(ZERO, strlen_of(single(ID)))).assume(le(strlen_of(single(ID)), const(100)))
        lit = literal(e, st, 'filename', path)

        def strftime(en, s2, ins, a):
            t = X.concrete(en, s2, a[2])
            if t is None or b'%' in t:
                raise GiveUp('date format not known')
            X.room(en, s2, a[0], const(len(t) + 1), ins, 'strftime')
            for i, c in enumerate(t + b'\0'):
                en.write(s2, add(a[0], const(i)), 1, const((c ^ 128) - 128), en.prog.loc(ins))
            return const(len(t))

        def known(name):
            def m(en, s2, ins, a):
                """none of the directories is there to begin with"""
                t = X.concrete(en, s2, a[0])
                if t is None:
                    raise GiveUp('text of %s not known' % name)
                t = t.rstrip(b'/') if name == 'mkdir' else t
                ps = s2.extra.get('paths', ())
                dirs = {x[1] for x in ps if x[0] == 'mkdir' and x[3]} | {b'', b'.'}
                up = t.rpartition(b'/')[0]
                ok = up in dirs and not (name == 'mkdir' and t in dirs)
                s2.extra['paths'] = ps + ((name, t, s2.norm(a[1]), ok),)
                if not ok:
                    s2.extra['errno'] = const(17 if t in dirs else 2)
                    return const(-1)
                return en.fresh(s2, name, rng=(0, (1 << 31) - 1)) if name == 'open' else ZERO
            return m

        def copy(en, s2, ins, a, old=dict(e.models)):
            t = X.concrete(en, s2, a[-1])
            if t is None:
                if len(a) > 1:
                    raise GiveUp('text not known')
                return old['strdup'](en, s2, ins, a)
            p = a[0] if len(a) > 1 else en.allocate(s2, ins, const(len(t) + 1))
            X.room(en, s2, p, const(len(t) + 1), ins, 'copying')
            for i, c in enumerate(t + b'\0'):
                en.write(s2, add(p, const(i)), 1, const((c ^ 128) - 128), en.prog.loc(ins))
            return p
        e.models.update(strftime=strftime, mkdir=known('mkdir'), open=known('open'), open64=known('open'), strcpy=copy, xstrdup=copy, strdup=copy)

        def post(o, path=path):
            ps = o.st.extra.get('paths', ())
            got = [x[1] for x in ps if x[0] == 'open' and x[3]]
            (o.good if got == [path] else lambda n: o.fail(n, 'for %r the files opened are %r' % (path, got)))(nm)
            more = [x[1] for x in ps if x[0] == 'mkdir' and x[3] and not path.startswith(x[1] + b'/')]
            (o.fail(nm, 'for %r the directory %r is made' % (path, more[0])) if more else o.good(nm))
            bad = [x for x in ps if x[0] == 'mkdir' and isconst(x[2]) and x[2].c & 0o300 != 0o300]
            (o.fail(nm, 'made with mode 0%o' % bad[0][2].c) if bad else o.good(nm))

        def nr(o, how, path=path):
            o.fail(nm, 'for %r the file cannot be opened: made are %r' % (path, [x[1] for x in o.st.extra.get('paths', ()) if x[0] == 'mkdir' and x[3]]))
        ck.run('log_file', e, st, [ID, lit], post, label='name %s' % path.decode(), on_noreturn=nr)


def facility(ck, st0, opened=False):
    """log_set_facility: a name from the table or a fatal error; openlog uses the one last set"""
    e = setup(ck)
    e.unroll = 60
    st = st0.copy()
    st.events = ()
    st.facts = st.facts.assume(ne(FAC)).assume(le(ZERO, strlen_of(single(FAC))))
    ends = []
    lab = 'while the system log is open' if opened else ''
    if opened:
        outs = [o for o in e.run(st, 'log_syslog', [ID]) if o.term != 'unreachable']
        if len(outs) != 1 or outs[0].term != 'ret':
            return ck.undecided('log_set_facility', lab, [o.term for o in outs])
        st = outs[0]
        st.events, st.path, st.errs, st.term, st.retval, st.frames = (), (), (), None, None, []

    def same_text(o, t):
        """is it known on this path that facility is the text t?"""
        f = t.decode('latin1')
        x, y = (f, FAC) if str(f) <= str(FAC) else (FAC, f)
        return o.st.decide(o.st.norm(eq(app('textcmp', x, y, rng=(-(1 << 31), (1 << 31) - 1)))))

    def post(o):
        ends.append(o.st.copy())
        o.good('a facility name is looked up')

    def nr(o, how):
        nm = 'only an unknown facility name is fatal'
        known = [c for c in o.st.path if c[0] == 'eq' and any(a.fn == 'textcmp' for a in deep_atoms(c))]
        (o.good if not known else lambda n: o.fail(n, 'fatal although %s' % showc(known[0])))(nm)
    ck.run('log_set_facility', e, st, [FAC], post, on_noreturn=nr, label=lab)
    seen = set()
    for s2 in ends:
        a = s2.copy()
        a.frames, a.term = [], None
        got = {}

        def post(o):
            nm = 'the facility reported is the one set'
            if o.isnull(o.ret):
                return o.fail(nm, 'none is reported')
            t = X.text_of(e, o.st, o.ret)
            if not isinstance(t, bytes):
                return o.undec(nm, 'name not interpreted')
            got['name'] = t
            seen.add(t)
            r = same_text(o, t)
            # two names of one number are alike
            if r is True:
                o.good(nm)
            elif r is False or r is None:
                hits = [c for c in o.st.path if c[0] == 'eq' and any(x.fn == 'textcmp' for x in deep_atoms(c))]
                if not hits:
                    return o.fail(nm, 'a facility is set without a name having matched')
                names = [x for c in hits for a2 in deep_atoms(c) if a2.fn == 'textcmp' for x in a2.args if isinstance(x, str)]
                alias = {'security': 'auth', 'auth': 'security'}
                if names and t.decode() not in names and alias.get(names[0]) != t.decode():
                    o.fail(nm, '%s is set and %s reported' % (names[0], t.decode()))
                else:
                    o.good(nm)
        b = a.copy()
        b.events, b.errs, b.retval = (), (), None
        ck.run('log_get_facility', e, b, [], post, label=lab)
        c = a.copy()
        c.events, c.errs, c.retval = (), (), None
        if opened:
            outs = [o for o in e.run(c, 'log_syslog', [ZERO]) if o.term != 'unreachable']
            if len(outs) != 1 or outs[0].term != 'ret':
                ck.undecided('log_syslog', lab, [o.term for o in outs])
                continue
            c = outs[0]
            c.events, c.errs, c.retval, c.term, c.frames = (), (), None, None, []

        def post2(o):
            ol = [x[2] for x in flat(o.st.events) if x[2].name == 'openlog']
            nm = 'the system log is opened with the facility set'
            if len(ol) != 1 or not isconst(o.st.norm(ol[0].args[2])):
                return o.undec(nm, 'facility not constant')
            v = o.st.norm(ol[0].args[2]).c
            t = got.get('name')
            F = FACILITIES.get((t or b'').decode())
            if F is None:
                return o.undec(nm, 'no standard facility')
            (o.good if F == v else lambda n: o.fail(n, '%s is opened as %d' % (t, v)))(nm)
        ck.run('log_syslog', e, c, [ID], post2, label=lab)
    ck.extra['facilities'] = sorted(x.decode() for x in seen)


FACILITIES = {'kern': 0, 'user': 8, 'mail': 16, 'daemon': 24, 'auth': 32, 'syslog': 40, 'lpr': 48, 'news': 56, 'uucp': 64, 'cron': 72, 'authpriv': 80, 'ftp': 88,
              'local0': 128, 'local1': 136, 'local2': 144, 'local3': 152, 'local4': 160, 'local5': 168, 'local6': 176, 'local7': 184}
