"""Descriptors and processes as the kernel keeps them, for the analysis of pr.c: concrete descriptor
numbers, one table per process; fork continues both processes, exec ends the child."""
from props import c28
from spec import *
import models as MO
import text as X

ERR = sym('errno_location', ptr=True)
EINTR, EAGAIN, ECHILD, EINVAL, ENOENT, EMFILE = 4, 11, 10, 22, 2, 24
OPEN_MAX = 20
CHILD_END = '$child'


def table(st):
    return st.extra['fdt']


def settab(st, t):
    st.extra['fdt'] = t


def lowest(t, n=0):
    while n in t:
        n += 1
    return n


def fdof(st, v, en=None, ins=None):
    v = st.norm(v)
    if not isconst(v):
        if en is not None and any(x.fn == 'undef' for x in deep_atoms(v)):
            X.raise_fault(en, st, 'uninit', ins, 'a descriptor that was never set is used')
        raise GiveUp('descriptor %s' % v)
    return v.c


def signed(c):
    return c


def failing(en, st, name, val=-1, errno=None):
    n = st.copy()
    n.extra['errno'] = const(errno)
    n.extra['failed'] = n.extra.get('failed', ()) + (name,)
    return n, const(val)


def install(e):
    M = e.models
    c28.arg_models(e)
    e.regions[('P', single(ERR))] = lambda s2, r, ix, sz, ty: s2.extra.get('errno', app('errno', ZERO, rng=(1, 200)))
    M['__errno_location'] = lambda en, s2, ins, a: ERR
    M['dbg_test'] = lambda en, st, ins, a: ZERO
    e.noreturn_names = set(e.noreturn_names) | {CHILD_END}
    for n in ('perror', 'printf', 'puts', 'fflush', 'log_info', 'log_error', 'fprintf', 'err_warning'):
        def quiet(en, st, ins, a, n=n):
            en.event(st, n, list(a), None, ins)
            return en.fresh(st, n, rng=(0, 1 << 20)) if ins.ty.k != 'void' else None
        M[n] = quiet

    def vector(en, st, ins, a):
        h = st.norm(a[0])
        t = st.extra.get(('args', h))
        if t is None:
            raise GiveUp('unknown argument list')
        if t == 'destroyed':
            X.raise_fault(en, st, 'use-after-free', ins, 'an argument list is used after arg_destroy')
        v = en.allocate(st, ins, const(8 * len(t) + 8))
        for i, p in enumerate(t + (ZERO,)):
            en.write(st, add(v, const(8 * i)), 8, p, en.prog.loc(ins))
        st.extra[('argv', h)] = st.extra.get(('argv', h), ()) + (v,)
        if st.norm(a[1]) is not ZERO:
            en.write(st, a[1], 4, const(len(t)), en.prog.loc(ins))
        if st.norm(a[2]) is not ZERO:
            en.write(st, a[2], 8, v, en.prog.loc(ins))
        return v if ins.ty.k != 'void' else None
    M['arg_get_vector'] = vector
    destroy = M['arg_destroy']

    def destroy_all(en, st, ins, a):
        r = destroy(en, st, ins, a)
        for v in st.extra.get(('argv', st.norm(a[0])), ()):
            MO.do_free(en, st, ins, v)
        return r
    M['arg_destroy'] = destroy_all

    def unknown(name):
        def m(en, st, ins, a):
            raise GiveUp('%s is not modelled' % name)
        M[name] = m
    for n in ('vfork', 'dup3', 'posix_spawn', 'posix_spawnp', 'waitid', 'wait3', 'wait', 'clone', 'popen', 'socketpair'):
        unknown(n)

    def pipe(en, st, ins, a):
        out = []
        if st.extra.get('mayfail'):
            out.append(failing(en, st, 'pipe', errno=EMFILE))
        t = dict(table(st))
        k = st.extra.get('pipes', 0)
        st.extra['pipes'] = k + 1
        flags = st.norm(a[1]).c if len(a) > 1 else 0
        r = lowest(t)
        t[r] = (('r', k), bool(flags & 0o2000000))
        w = lowest(t)
        t[w] = (('w', k), bool(flags & 0o2000000))
        settab(st, t)
        en.access(st, a[0], 8, ins, True)
        en.write(st, a[0], 4, const(r), en.prog.loc(ins))
        en.write(st, add(a[0], const(4)), 4, const(w), en.prog.loc(ins))
        en.event(st, 'pipe', [const(r), const(w)], ZERO, ins)
        return [(st, ZERO)] + out
    M['pipe'] = M['pipe2'] = pipe

    def badfd(en, st):
        st.extra['errno'] = const(9)
        return const(-1)

    def close(en, st, ins, a):
        fd = fdof(st, a[0], en, ins)
        t = dict(table(st))
        en.event(st, 'close', [const(fd)], None, ins)
        if fd not in t:
            return badfd(en, st)
        del t[fd]
        settab(st, t)
        return ZERO
    M['close'] = close

    def dup2(en, st, ins, a):
        o, n = fdof(st, a[0], en, ins), fdof(st, a[1], en, ins)
        t = dict(table(st))
        en.event(st, 'dup2', [const(o), const(n)], None, ins)
        if o not in t or not 0 <= n < OPEN_MAX:
            return badfd(en, st)
        if o != n:
            t[n] = (t[o][0], False)
            settab(st, t)
        return const(n)
    M['dup2'] = dup2

    def dup(en, st, ins, a):
        o = fdof(st, a[0], en, ins)
        t = dict(table(st))
        if o not in t:
            return badfd(en, st)
        n = lowest(t)
        t[n] = (t[o][0], False)
        settab(st, t)
        return const(n)
    M['dup'] = dup

    def fcntl(en, st, ins, a):
        fd, cmd = fdof(st, a[0], en, ins), st.norm(a[1])
        t = dict(table(st))
        if fd not in t:
            return badfd(en, st)
        if not isconst(cmd):
            raise GiveUp('fcntl command')
        en.event(st, 'fcntl', list(a), ZERO, ins)
        if cmd.c in (0, 1030):
            out = [failing(en, st, 'fcntl', errno=EMFILE)] if st.extra.get('mayfail') else []
            n = lowest(t, fdof(st, a[2]))
            t[n] = (t[fd][0], cmd.c == 1030)
            settab(st, t)
            return [(st, const(n))] + out
        if cmd.c == 2:
            t[fd] = (t[fd][0], bool(fdof(st, a[2]) & 1))
            settab(st, t)
            return ZERO
        if cmd.c == 1:
            return const(int(t[fd][1]))
        if cmd.c == 3:
            return const(st.extra.get(('fl', t[fd][0]), 2))
        if cmd.c == 4:
            v = st.norm(a[2])
            st.extra[('fl', t[fd][0])] = v.c if isconst(v) else 2
            return ZERO
        raise GiveUp('fcntl %s' % cmd)
    M['fcntl'] = M['fcntl64'] = fcntl

    def opn(en, st, ins, a):
        t = X.concrete(en, st, a[0])
        fl = st.norm(a[1])
        if t is None or not isconst(fl):
            raise GiveUp('open of an unknown name')
        tab = dict(table(st))
        n = lowest(tab)
        tab[n] = (('file', bytes(t), fl.c & 3), bool(fl.c & 0o2000000))
        settab(st, tab)
        en.event(st, 'open', list(a), const(n), ins)
        return const(n)
    M['open'] = M['open64'] = opn

    def close_range(en, st, ins, a):
        lo, hi = fdof(st, a[0], en, ins), st.norm(a[1])
        hi = hi.c if isconst(hi) else OPEN_MAX
        hi = OPEN_MAX if hi < 0 else hi
        settab(st, {k: v for k, v in table(st).items() if not lo <= k <= hi})
        return ZERO
    M['close_range'] = close_range
    M['closefrom'] = lambda en, st, ins, a: close_range(en, st, ins, [a[0], const(OPEN_MAX)]) and None
    M['sysconf'] = lambda en, st, ins, a: const(OPEN_MAX)
    M['getdtablesize'] = lambda en, st, ins, a: const(OPEN_MAX)

    def fork(en, st, ins, a):
        if st.extra.get('proc') == 'child':
            raise GiveUp('fork in the child')
        out = []
        if st.extra.get('mayfail'):
            out.append(failing(en, st, 'fork', errno=EAGAIN))
        k = st.extra.get('forks', 0)
        st.extra['forks'] = k + 1
        en.event(st, 'fork', [], ZERO, ins)
        c = st.copy()
        c.extra['proc'] = 'child'
        st.extra['live'] = st.extra.get('live', ()) + (1001 + k,)
        return [(st, const(1001 + k)), (c, ZERO)] + out
    M['fork'] = fork

    def exec_(name):
        def m(en, st, ins, a):
            out = []
            words = []
            v = a[1]
            if st.norm(v) is ZERO:
                X.raise_fault(en, st, 'null-deref', ins, 'no argument vector')
            for i in range(40):
                p = st.norm(en.read(st, add(v, const(8 * i)), 8, ir.PTR))
                if p is ZERO:
                    break
                X.alive(en, st, [p], ins, name)
                words.append(X.concrete(en, st, p))
            f = st.norm(a[0])
            path = X.concrete(en, st, f) if f is not ZERO else None
            st.extra['exec'] = (name, path, tuple(words))
            n = st.copy()
            n.extra['errno'] = en.fresh(n, 'errno of %s' % name, rng=(1, 133))
            n.extra['execfailed'] = 1
            if f is not ZERO:
                en.event(st, name, list(a), ZERO, ins)
                st.term = 'noreturn:' + CHILD_END
                out.append((st, ZERO))
            out.append((n, const(-1)))
            return out
        return m
    for n in ('execvp', 'execv', 'execve', 'execvpe'):
        M[n] = exec_(n)

    def kill(en, st, ins, a):
        en.event(st, 'kill', list(a), ZERO, ins)
        return ZERO
    M['kill'] = kill

    def waitpid(en, st, ins, a):
        pid, opts = st.norm(a[0]), st.norm(a[2])
        if not isconst(opts):
            raise GiveUp('waitpid options %s' % opts)
        h = getattr(en, 'wait_hook', None)
        return h(en, st, ins, pid, a[1], opts.c)
    M['waitpid'] = waitpid
    M['wait4'] = waitpid
    return e


def reaped(en, st, ins, pid, sp, opts):
    """the plain case: the process ends with 0; a process already waited for is ECHILD"""
    en.event(st, 'waitpid', [pid], pid, ins)
    if not isconst(pid):
        raise GiveUp('waitpid of %s' % pid)
    if pid.c not in st.extra.get('live', ()):
        st.extra['errno'] = const(ECHILD)
        return const(-1)
    st.extra['live'] = tuple(x for x in st.extra['live'] if x != pid.c)
    if st.norm(sp) is not ZERO:
        en.write(st, sp, 4, ZERO, en.prog.loc(ins))
    return pid


def cell(e, st, name, size, val, ptr=False):
    """an object of the caller, e.g. for a result"""
    p = sym(name, ptr=True)
    st.facts = st.facts.assume(ne(p)) or st.facts
    e.extents[('P', single(p))] = const(size)
    e.write(st, p, size, val, 'caller')
    return p
