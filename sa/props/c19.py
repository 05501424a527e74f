"""C19: filtering through a process neither loses nor overruns data."""
import product as PD
import procs as PR
from props import c17
from props.c27 import Step, scenario
from spec import *

CUT = '$seen'
N, MX = sym('inLen', rng=(0, (1 << 31) - 1)), sym('outMaxLen', rng=(0, (1 << 31) - 1))
INB, OUTB = sym('inBuffer', ptr=True), sym('outBuffer', ptr=True)
FATAL = ('err_fatal', 'err_internal', 'err_fatal_errno')
O_NONBLOCK = 0o4000
POLLIN, POLLOUT = 1, 4


class Data:
    """what has been written to and read from the filter so far; the counts are the symbols last introduced"""

    def __init__(d, en, st):
        d.en, d.st = en, st

    def get(d, k, dflt=None):
        return d.st.extra.get('d' + k, dflt)

    def set(d, k, v):
        d.st.extra['d' + k] = v

    W = property(lambda d: d.get('W', ZERO))
    R = property(lambda d: d.get('R', ZERO))


def count(en, st, base, limit, name):
    """a new total: base < v <= limit"""
    v = en.fresh(st, name, rng=(0, (1 << 31) - 1))
    f = st.facts.assume(lt(base, v))
    f = f and f.assume(le(v, limit))
    if f is None:
        return None
    st.facts = f
    return v


def ends(en, st):
    """(descriptor to write to or None, descriptor to read from or None)"""
    t = PR.table(st)
    w = [k for k, v in t.items() if v[0] == st.extra['inpipe']]
    r = [k for k, v in t.items() if v[0] == st.extra['outpipe']]
    return (w[0] if w else None), (r[0] if r else None)


def blocking(st, which):
    return not st.extra.get(('fl', st.extra[which]), 0) & O_NONBLOCK


def bad(en, st, ins, kind, msg):
    st.errs = st.errs + ((kind, en.prog.loc(ins), msg, en.callstack(st)),)
    raise E.Fault(kind)


def room(en, st, ins, p, base, off, n, limit, what):
    """p must be base + off and off + n <= limit"""
    c = en.ptr_eq(st, st.norm(p), st.norm(add(base, off)))
    r = st.decide(c)
    if r is None:
        raise NeedSplit(st.norm(c))
    if not r:
        return False
    c = st.norm(le(add(off, n), limit))
    r = st.decide(c)
    if r is None:
        raise NeedSplit(c)
    if not r:
        bad(en, st, ins, 'overrun', what)
    return True


def install(e):
    M = e.models
    e.noreturn_names = set(e.noreturn_names) | {CUT}

    def write(en, st, ins, a):
        d = Data(en, st)
        fd = PR.fdof(st, a[0], en, ins)
        w, r = ends(en, st)
        n = st.norm(a[2])
        if fd != w:
            if w is None and fd == st.extra['infd']:
                bad(en, st, ins, 'write after close', 'the input of the filter is already closed')
            bad(en, st, ins, 'wrong descriptor', 'data is written to descriptor %d' % fd)
        c = le(n, ZERO)
        z = st.decide(st.norm(c))
        if z is None:
            raise NeedSplit(st.norm(c))
        d.set('tried', d.get('tried', ()) + ('w',))
        if z:
            if st.decide(eq(n)) is True:
                return ZERO
            bad(en, st, ins, 'overrun', 'a negative count is written')
        if not room(en, st, ins, a[1], INB, d.W, n, N, 'more is written than what is left of the input'):
            bad(en, st, ins, 'lost or repeated data', 'writes from %s when %s bytes have been written' % (st.norm(a[1]), d.W))
        out = []
        ready = d.get('ready')
        if ready is not None and 'w' not in ready:
            if blocking(st, 'inpipe'):
                bad(en, st, ins, 'blocks', 'a blocking write to a filter that waits to be read')
            n2 = st.copy()
            n2.extra['errno'] = const(PR.EAGAIN)
            return [(n2, const(-1))]
        if blocking(st, 'inpipe') and d.get('moved'):
            pass
        if blocking(st, 'inpipe'):
            bad(en, st, ins, 'blocks', 'a write of the whole input can wait for ever for a filter that waits to be read')
        v = count(en, st, d.W, add(d.W, n), 'written')
        m = st.copy()
        old = d.W
        if v is not None:
            d.set('W', v)
            d.set('unfinished', None)
            out.append((st, sub(v, old)))
        out += fails(en, m)
        return out
    M['write'] = write

    def fails(en, m):
        out = []
        if not m.extra.get('intr'):
            x = m.copy()
            x.extra['intr'] = 1
            x.extra['errno'] = const(PR.EINTR)
            out.append((x, const(-1)))
        x = m.copy()
        x.extra['errno'] = const(32)
        x.extra['broken'] = 1
        out.append((x, const(-1)))
        return out

    def read(en, st, ins, a):
        d = Data(en, st)
        fd = PR.fdof(st, a[0], en, ins)
        w, r = ends(en, st)
        n = st.norm(a[2])
        if fd != r:
            bad(en, st, ins, 'wrong descriptor', 'reads from descriptor %d' % fd)
        d.set('tried', d.get('tried', ()) + ('r',))
        c = eq(n)
        z = st.decide(st.norm(c))
        if z is None:
            raise NeedSplit(st.norm(c))
        if z:
            return ZERO         # tells nothing
        if st.decide(st.norm(lt(n, ZERO))) is not False:
            if st.decide(st.norm(lt(n, ZERO))) is None:
                raise NeedSplit(st.norm(lt(n, ZERO)))
            bad(en, st, ins, 'overrun', 'reads without a limit')
        main = room(en, st, ins, a[1], OUTB, d.R, n, MX, 'more is read than what is left of the output buffer')
        if not main:
            root, idx = en.root_of(st, a[1])
            if root == ('P', single(OUTB)):
                bad(en, st, ins, 'lost or misplaced data', 'stores at %s when %s bytes have been stored' % (st.norm(a[1]), d.R))
            en.access(st, a[1], 1, ins, True)
            en.access(st, add(a[1], sub(n, ONE)), 1, ins, True)
        ready = d.get('ready')
        if ready is not None and 'r' not in ready:
            if blocking(st, 'outpipe'):
                bad(en, st, ins, 'blocks', 'a blocking read from a filter that waits for its input')
            n2 = st.copy()
            n2.extra['errno'] = const(PR.EAGAIN)
            return [(n2, const(-1))]
        if ready is None and blocking(st, 'outpipe') and w is not None:
            bad(en, st, ins, 'blocks', 'a blocking read from a filter that waits for its input')
        out = []
        m, z = st.copy(), st.copy()
        if main:
            v = count(en, st, d.R, add(d.R, n), 'stored')
            if v is not None:
                old = d.R
                d.set('R', v)
                out.append((st, sub(v, old)))
        else:
            k = en.fresh(st, 'spilled', rng=(1, (1 << 31) - 1))
            st.facts = st.facts.assume(le(k, n)) or st.facts
            st.extra['spilled'] = 1
            out.append((st, k))
        z.extra['eof'] = 1
        out.append((z, ZERO))
        out += fails(en, m)
        return out
    M['read'] = read

    def waiting(en, st, ins, watched, timed):
        """one wait for readiness; watched: {'w','r'}; returns [(state, ready set or None after a failure)]"""
        d = Data(en, st)
        w, r = ends(en, st)
        if d.get('ready') is not None:
            ready, tried = d.get('ready'), d.get('tried', ())
            if ready and not set(ready) & set(tried) and not st.extra.get('eof'):
                bad(en, st, ins, 'no progress', 'the filter is ready (%s) and nothing is transferred' % ' and '.join({'w': 'to read its input', 'r': 'with output'}[x] for x in ready))
        key = signature(en, st, ins)
        seen = en.seen_states
        if key in seen:
            st.term = 'noreturn:' + CUT
            return None
        seen.add(key)
        d.set('tried', ())
        out = []
        if not st.extra.get('intr'):
            x = st.copy()
            x.extra['intr'] = 1
            x.extra['errno'] = const(PR.EINTR)
            x.extra['dready'] = None
            out.append((x, None))
        x = st.copy()
        x.extra['broken'] = 1
        x.extra['errno'] = const(PR.EINVAL)
        out.append((x, None))
        can = ['r'] + (['w'] if w is not None else [])
        for ready in ((k,) for k in can) if w is None else (('w',), ('r',), ('w', 'r')):
            if not set(ready) & set(watched):
                if not timed:
                    bad(en, st, ins, 'blocks', 'waits for %s only, when the filter is ready %s' % (' and '.join(watched) or 'nothing', ready))
            x = st.copy()
            x.extra['dready'] = ready
            out.append((x, tuple(k for k in ready if k in watched)))
        return out

    def select(en, st, ins, a):
        n = st.norm(a[0])
        if not isconst(n):
            raise GiveUp('select up to %s' % n)
        w, r = ends(en, st)

        def bits(p):
            s = set()
            if st.norm(p) is ZERO:
                return s
            for i in range((n.c + 63) // 64):
                v = st.norm(en.read(st, add(p, const(8 * i)), 8, ir.INTS[64]))
                if not isconst(v):
                    if any(x.fn == 'undef' for x in deep_atoms(v)):
                        bad(en, st, ins, 'uninit', 'a descriptor set that was never cleared')
                    raise GiveUp('descriptor set %s' % v)
                for b in range(64):
                    if v.c >> b & 1 and 64 * i + b < n.c:
                        s.add(64 * i + b)
            return s
        rd, wr, ex = [bits(p) for p in a[1:4]]
        for fd in rd | wr | ex:
            if fd not in PR.table(st):
                bad(en, st, ins, 'closed descriptor', 'select watches descriptor %d, which is closed' % fd)
        watched = (('w',) if w in wr else ()) + (('r',) if r in rd else ())
        if st.norm(a[4]) is not ZERO:
            tv = [st.norm(en.read(st, add(a[4], const(o)), 8, ir.INTS[64])) for o in (0, 8)]
        res = waiting(en, st, ins, watched, st.norm(a[4]) is not ZERO)
        if res is None:
            return [(st, ZERO)]
        out = []
        for x, ready in res:
            if ready is None:
                out.append((x, const(-1)))
                continue
            for p, s in ((a[1], {r} if 'r' in ready else set()), (a[2], {w} if 'w' in ready else set()), (a[3], set())):
                if st.norm(p) is not ZERO:
                    for i in range(16):
                        word = sum(1 << (fd - 64 * i) for fd in s if 64 * i <= fd < 64 * i + 64)
                        en.write(x, add(p, const(8 * i)), 8, const(word), en.prog.loc(ins))
            out.append((x, const(len(ready))))
        return out
    M['select'] = select

    def poll(en, st, ins, a):
        n = st.norm(a[1])
        if not isconst(n):
            raise GiveUp('poll of %s' % n)
        w, r = ends(en, st)
        fds = []
        for i in range(n.c):
            fd = st.norm(en.read(st, add(a[0], const(8 * i)), 4, ir.INTS[32]))
            evs = st.norm(en.read(st, add(a[0], const(8 * i + 4)), 2, ir.INTS[16]))
            if not isconst(fd) or not isconst(evs):
                raise GiveUp('poll')
            fds.append((fd.c, evs.c))
        watched = tuple(k for k, f, m in (('w', w, POLLOUT), ('r', r, POLLIN)) if any(fd == f and ev & m for fd, ev in fds))
        t = st.norm(a[2])
        res = waiting(en, st, ins, watched, not (isconst(t) and t.c < 0))
        if res is None:
            return [(st, ZERO)]
        out = []
        for x, ready in res:
            if ready is None:
                out.append((x, const(-1)))
                continue
            k = 0
            for i, (fd, ev) in enumerate(fds):
                v = (POLLOUT if fd == w and 'w' in ready else 0) | (POLLIN if fd == r and 'r' in ready else 0)
                v &= ev
                k += bool(v)
                en.write(x, add(a[0], const(8 * i + 6)), 2, const(v), en.prog.loc(ins))
            out.append((x, const(k)))
        return out
    M['poll'] = poll

    def signature(en, st, ins):
        """what is live at this point, with the counts of the moment renamed"""
        d = Data(en, st)
        sw, sr = sym('W'), sym('R')
        m = {}
        for v, s in ((d.W, sw), (d.R, sr)):
            x = single(v) if isinstance(v, Lin) else None
            if x is not None and x.fn not in ('sym',):
                m[x] = s
        old = {'written': sym('W-'), 'stored': sym('R-'), 'spilled': sym('S-')}

        def show(v, index):
            v = st.norm(v)
            v = subst(v, {**{x: old[x.args[0].split('.')[0].split('#')[0]] for x in deep_atoms(v) if x.args and isinstance(x.args[0], str) and x.args[0].split('.')[0].split('#')[0] in old}, **m})
            return str(v)
        fr = PD.snapshot(en, st, show, header=False)
        facts = tuple(str(st.decide(c)) for c in (eq(d.W), eq(d.W, N), lt(d.W, N), eq(d.R), eq(d.R, MX), lt(d.R, MX), eq(N), eq(MX)))
        return repr((fr, facts, sorted(PR.table(st).items()), st.extra.get('intr'), st.extra.get('broken'), st.extra.get('eof'), st.extra.get('spilled'), d.W is ZERO, d.R is ZERO))

    close = M['close']

    def closing(en, st, ins, a):
        if st.extra.get('proc') == 'child':
            return close(en, st, ins, a)
        d = Data(en, st)
        fd = PR.fdof(st, a[0], en, ins)
        w, r = ends(en, st)
        if fd == w and not st.extra.get('broken') and not st.extra.get('eof'):
            c = st.norm(eq(d.W, N))
            k = st.decide(c)
            if k is None:
                raise NeedSplit(c)
            if not k:
                bad(en, st, ins, 'lost data', 'the input is closed when %s of %s bytes are written' % (d.W, N))
        if fd == r and not st.extra.get('eof') and not st.extra.get('broken'):
            bad(en, st, ins, 'lost data', 'the output is closed before its end')
        return close(en, st, ins, a)
    M['close'] = closing


def run(ck):
    names = ['PR_CREATE_STDIN', 'PR_CREATE_STDOUT']
    MC = macros(names)

    def start():
        e = c17.engine(ck)
        e.pathwise = 40
        e.budget = 400000
        e.seen_states = set()
        e.nonnull_atoms = getattr(e, 'nonnull_atoms', set()) | {single(INB), single(OUTB)}
        e.extents[('P', single(INB))] = N
        e.extents[('P', single(OUTB))] = MX
        install(e)
        st = e.new_state()
        PR.settab(st, dict(c17.BASE))
        st.extra['inpipe'] = st.extra['outpipe'] = None
        f = st.facts
        for p in (INB, OUTB):
            f = f.assume(ne(p)) or f
        st.facts = f

        def fresh_status(en, st, ins, pid, sp, opts):
            en.event(st, 'waitpid', [pid], pid, ins)
            st.extra['waited'] = st.extra.get('waited', ()) + (pid,)
            n = st.copy()
            if st.norm(sp) is not ZERO:
                en.write(st, sp, 4, ZERO, en.prog.loc(ins))
                en.write(n, sp, 4, const(3 << 8), en.prog.loc(ins))
            return [(st, pid), (n, pid)]
        e.wait_hook = fresh_status
        return e, st, {'known': {}, 'table': dict(c17.BASE), 'pipes': 0, 'pids': ()}

    def judge(o, noret, env):
        st, x = o.st, o.st.extra
        if x.get('proc') == 'child' or noret == CUT:
            return None
        W, R = x.get('dW', ZERO), x.get('dR', ZERO)
        if noret is not None:
            nm = 'an end that is not fatal'
            why = [w for w in ('broken', 'spilled') if x.get(w)]
            if noret not in FATAL:
                o.fail(nm, 'ends in %s' % noret)
            elif why:
                o.good('a failing transfer is fatal' if why == ['broken'] else 'more output than fits is fatal')
            elif x.get('eof'):
                o.must(lt(W, N), nm, 'it fails at the end of the output, when all input was taken')
            elif x.get('failed'):
                o.good('a failing transfer is fatal')
            else:
                o.fail(nm, 'ends in %s after %s bytes written, %s stored' % (noret, W, R))
            return None
        if x.get('broken'):
            o.fail('a failing transfer is fatal', 'the call returns %s' % o.ret)
            return None
        nm = 'every byte that was given is written'
        o.must(eq(W, N), nm, 'returns when %s of %s bytes are written' % (W, N))
        nm = 'the output is read to its end'
        (o.good(nm) if x.get('eof') else o.fail(nm, 'returns %s before the end' % o.ret))
        nm = 'more output than fits is fatal'
        (o.good(nm) if not x.get('spilled') else o.fail(nm, 'bytes are dropped and the call returns'))
        o.must(eq(o.ret, R), 'the number of bytes stored is returned', 'returns %s, %s are stored' % (o.ret, R))
        w, r = ends(o.e, st)
        nm = 'both ends are closed'
        (o.good(nm) if w is None and r is None else o.fail(nm, 'left open: %s' % [k for k in (w, r) if k is not None]))
        nm = 'the process is waited for'
        if any(p is const(env['pid']) for p in x.get('waited', ())):
            o.good(nm)
        else:
            o.fail(nm, 'waits for %s' % (x.get('waited', ()),))
        return env

    def forgotten(o, noret, env):
        nm = 'neither end is a descriptor of a process afterwards'
        (o.good(nm) if noret in FATAL else o.fail(nm, 'it still names %s' % o.ret if noret is None else 'ends in %s' % noret))
        return None

    e, st, env = start()

    def both(o, noret, env):
        if o.st.extra.get('proc') == 'child' or noret is not None:
            return None
        t = o.st.extra['fdt']
        env = dict(env)
        env['pid'] = 1000 + o.st.extra['forks']
        for k, v in t.items():
            if v[0][0] == 'w':
                env['in'] = k
                o.st.extra['inpipe'], o.st.extra['infd'] = v[0], k
            if v[0][0] == 'r':
                env['out'] = k
                o.st.extra['outpipe'] = v[0]
        return env
    cmd = lambda e, st: literal(e, st, 'command', c17.CMD)
    rw = Step('pr_readwrite', lambda env, st: [const(env['in']), const(env['out']), INB, N, OUTB, MX], judge)
    q = c17.Req(('create', 'create', None), MC, 'p')
    scenario(ck, e, st, [Step('pr_open', lambda env, st: [cmd(e, st), const(q.flags)] + q.cells(e, st, env), both), rw, Step('pr_close_nowait', lambda env, st: [const(env['in'])], forgotten)], 'one process', env)
    # the reading end has the lower number
    e2, st2, env2 = start()
    qo, qi = c17.Req((None, 'create', None), MC, 'o'), c17.Req(('create', None, None), MC, 'i')
    scenario(ck, e2, st2, [Step('pr_open', lambda env, st: [cmd(e2, st), const(qo.flags)] + qo.cells(e2, st, env), lambda o, noret, env: both(o, noret, env)),
                           Step('pr_open', lambda env, st: [cmd(e2, st), const(qi.flags)] + qi.cells(e2, st, env), lambda o, noret, env: dict(both(o, noret, env), pid=1001) if both(o, noret, env) else None), rw], 'two processes', env2)
    # pr_filter as a whole: the pipes are known once they are made
    e3, st3, env3 = start()
    M = e3.models
    pipe = M['pipe']

    def tracked(en, st, ins, a):
        r = pipe(en, st, ins, a)
        k = st.extra['pipes'] - 1
        if k == 0:
            st.extra['inpipe'] = ('w', 0)
            st.extra['infd'] = [f for f, v in PR.table(st).items() if v[0] == ('w', 0)][0]
        else:
            st.extra['outpipe'] = ('r', k)
        return r
    M['pipe'] = tracked
    scenario(ck, e3, st3, [Step('pr_filter', lambda env, st: [cmd(e3, st), INB, N, OUTB, MX], lambda o, noret, env: judge(o, noret, dict(env, pid=1001)))], 'a command', env3)
    ck.extra['distinct_states_at_a_wait'] = [len(x.seen_states) for x in (e, e2, e3)]
    ck.rule('input of any length, output buffer of any capacity, transfers of any size, every order of readiness, interruption anywhere: explored to a fixpoint over the live values at each wait, with the totals as symbols')
    ck.finish('static: pr_readwrite is analysed on an abstract pair of pipes with symbolic totals; every transfer must start at the total so far and stay within the buffer; loop iterations explored until no new abstract state appears', level='other', minimum=40)
