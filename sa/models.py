"""Models of the C library and of libmaa's allocation wrappers."""
from terms import *
import eng as E
from eng import Entry, Fault, NeedSplit, GiveUp, strlen_of


def install(eng):
    M = eng.models
    for n in ('malloc', 'xmalloc_'):
        M[n] = m_malloc
    M['calloc'] = m_calloc
    M['realloc'] = m_realloc
    M['free'] = m_free
    M['strlen'] = m_strlen
    M['memcpy'] = M['memmove'] = m_memcpy
    for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
        M[n] = m_memcpy
    M['memset'] = M['llvm.memset.p0.i64'] = m_memset
    for n in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strcoll'):
        M[n] = m_pure_int
    M['strcpy'] = m_strcpy
    M['strncpy'] = m_strncpy
    M['strdup'] = m_strdup
    M['strchr'] = M['strrchr'] = M['memchr'] = m_strchr
    M['strnlen'] = m_strnlen
    for n in ('sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'strcat', 'strncat'):
        M[n] = m_scribble
    M['llvm.stacksave.p0'] = M['llvm.stacksave'] = lambda s, st, ins, a: ZERO
    M['llvm.stackrestore.p0'] = M['llvm.stackrestore'] = lambda s, st, ins, a: None
    M['llvm.va_start'] = M['llvm.va_start.p0'] = m_va_start
    M['llvm.va_end'] = M['llvm.va_end.p0'] = m_va_end
    M['llvm.va_copy'] = M['llvm.va_copy.p0'] = m_va_copy
    M['llvm.fmuladd.f64'] = M['fma'] = M['llvm.fma.f64'] = lambda s, st, ins, a: app('fma', *a)
    M['abs'] = lambda s, st, ins, a: app('abs', a[0])


def m_malloc(s, st, ins, a):
    """malloc: NULL on failure (both outcomes) unless the spec pins it"""
    p = s.allocate(st, ins, a[-1])
    s.event(st, 'malloc', a, p, ins)
    if getattr(s, 'malloc_may_fail', True):
        n = st.copy()
        n.ctr[('oom',)] = add(n.ctr.get(('oom',), ZERO), ONE)
        n.extra['oom'] = n.extra.get('oom', 0) + 1
        n.extra['oom_at'] = len(n.events)
        return [(st, p), (n, ZERO)]
    return p


def m_calloc(s, st, ins, a):
    n = a[0] if isconst(a[0]) and a[0].c == 1 else None
    size = mul(a[1], a[0].c) if isconst(a[0]) else mul(a[0], a[1].c) if isconst(a[1]) else app('mul', a[0], a[1])
    p = s.allocate(st, ins, size)
    s.event(st, 'malloc', [size], p, ins)
    s.bulk(st, p, size, ('fill', ZERO), s.prog.loc(ins))
    if getattr(s, 'malloc_may_fail', True):
        n = st.copy()
        n.extra['oom'] = n.extra.get('oom', 0) + 1
        n.extra['oom_at'] = len(n.events)
        return [(st, p), (n, ZERO)]
    return p


def m_realloc(s, st, ins, a):
    old, size = a
    if st.norm(old) is ZERO:
        return m_malloc(s, st, ins, [size])
    root, idx = s.root_of(st, old)
    if root[0] not in ('A', 'E', 'P', 'N') or st.norm(idx[-1]) is not ZERO:
        return s.fault(st, 'bad-realloc', ins, 'realloc of %s' % old)
    oldsz = s.objsize(st, root, idx) if root[0] == 'A' else None
    out = []
    if getattr(s, 'malloc_may_fail', True):
        n = st.copy()
        n.extra['oom'] = n.extra.get('oom', 0) + 1
        n.extra['oom_at'] = len(n.events)
        out.append((n, ZERO))
    p = s.allocate(st, ins, size)
    s.event(st, 'realloc', [old, size], p, ins)
    nroot, nidx = s.root_of(st, p)
    st.log[nroot] = st.log.get(nroot, ()) + (Entry((), True, tuple(nidx), oldsz if oldsz is not None else size, ('copy', root, idx, st.log.get(root, ())), s.prog.loc(ins)),)
    do_free(s, st, ins, old)
    return [(st, p)] + out


def do_free(s, st, ins, p):
    p = st.norm(p)
    root, idx = s.root_of(st, p)
    if root[0] in ('G', 'F'):
        return s.fault(st, 'bad-free', ins, 'free of static storage %s' % p)
    if root in s.guards:
        m = s.guards[root](st, idx, 0, 'free')
        if m:
            return s.fault(st, 'forbidden access', ins, m)
    off = st.norm(idx[-1])
    if off is not ZERO and root[0] in ('A', 'E'):
        r = st.decide(eq(off))
        if r is False:
            return s.fault(st, 'bad-free', ins, 'free of an interior pointer %s' % p)
    if root[0] == 'E':
        a = [x for x, k in p.t if x.fn == 'elem'][0]
        st2 = lt(a.args[1], app('n', a.args[0]))
        r = st.decide(st2)
        if r is False:
            return None
        if r is None:
            raise NeedSplit(st.norm(st2))
    if st.freed.get(root):
        e = s.is_freed(st, root, idx)
        if e is not None:
            return s.fault(st, 'double-free', ins, '%s is freed again (first freed at %s)' % (p, e.loc))
    if root[0] == 'P' and root[1].fn == 'undef':
        return s.fault(st, 'uninit', ins, 'free of an uninitialised pointer %s' % p)
    st.freed[root] = st.freed.get(root, ()) + (Entry((), True, tuple(st.norm(i) for i in idx[:-1]) + (ZERO,), 1, ONE, s.prog.loc(ins)),)


def m_free(s, st, ins, a):
    p = st.norm(a[0])
    s.event(st, 'free', [p], None, ins)
    if p is ZERO:
        return None
    do_free(s, st, ins, p)
    return None


def str_content(s, st, p):
    """(content id atom, offset) of the string at p"""
    root, idx = s.root_of(st, p)
    return root, idx


def m_strlen(s, st, ins, a):
    return strlen(s, st, a[0], ins)


def strlen(s, st, p, ins):
    p = st.norm(p)
    if s.literals and ins is not None:
        try:
            r = s.root_of(st, p)
        except (GiveUp, NeedSplit):
            r = None
        if r and r[0][0] == 'P' and r[0][1] in s.literals and isconst(r[1][-1]) and not st.log.get(r[0]):
            b = s.literals[r[0][1]]
            if b'\0' not in b[r[1][-1].c:] and s.extents.get(r[0]) is const(len(b)):
                s.fault(st, 'overrun', ins, 'the text at %s has no end' % p)
    h = getattr(s, 'strlen_hook', None)
    if h:
        v = h(st, p, ins)
        if v is not None:
            return v
    if ins is not None:
        s.access(st, p, 1, ins, False)
    root, idx = s.root_of(st, p)
    off = idx[-1]
    if root[0] == 'G':
        g = s.globobj.get(root[1])
        if g is not None and g.init is not None and g.init[0] == 'str' and isconst(off):
            b = g.init[1][off.c:]
            if b'\0' in b:
                return const(b.index(b'\0'))
    if root[0] == 'P' and not st.log.get(root):
        if root[1] in s.literals and isconst(off):
            b = s.literals[root[1]][off.c:]
            if b'\0' in b:
                return const(b.index(b'\0'))
            if s.extents.get(root) is not const(len(s.literals[root[1]])):
                return const(len(b))
        L = strlen_of(root[1])
        if isconst(off) and off.c == 0:
            return L
        if st.decide(le(off, L)) is True and st.decide(le(ZERO, off)) is True:
            return sub(L, off)
    return app('strlenx', p, sum(len(x) for x in st.log.values()), rng=(0, None))


def m_memcpy(s, st, ins, a):
    d, src, n = a[0], a[1], st.norm(a[2])
    if n is ZERO:
        return d
    if st.decide(le(n, ZERO)) is True:
        return d
    if (s.check_bounds or s.extents) and st.decide(le(n, ZERO)) is None:
        raise NeedSplit(st.norm(le(n, ZERO)))
    root, idx = s.root_of(st, d)
    sroot, sidx = s.root_of(st, src)
    if root[0] == 'NULL' or sroot[0] == 'NULL':
        return s.fault(st, 'null-deref', ins, 'memcpy with a null pointer')
    s.access(st, d, 1, ins, True)
    s.access(st, src, 1, ins, False)
    s.on_bulk(st, ins, root, idx, sroot, sidx, n) if hasattr(s, 'on_bulk') else None
    if s.check_bounds or s.extents:
        for r, i, w in ((root, idx, True), (sroot, sidx, False)):
            if (s.check_bounds and r[0] in 'AG') or r in s.extents:
                s.bounds(st, r, tuple(i), 1, ins, w)
                s.bounds(st, r, tuple(i[:-1]) + (add(i[-1], sub(n, ONE)),), 1, ins, w)
    st.log[root] = st.log.get(root, ()) + (Entry((), True, tuple(st.norm(i) for i in idx), n, ('copy', sroot, tuple(st.norm(i) for i in sidx), st.log.get(sroot, ())), s.prog.loc(ins)),)
    return d


def m_memset(s, st, ins, a):
    d, b, n = a[0], a[1], st.norm(a[2])
    if n is ZERO:
        return d
    root, idx = s.access(st, d, 1, ins, True)
    if (s.check_bounds and root[0] in 'AG' or root in s.extents) and st.decide(le(n, ZERO)) is False:
        s.bounds(st, root, tuple(idx), 1, ins, True)
        s.bounds(st, root, tuple(idx[:-1]) + (add(idx[-1], sub(n, ONE)),), 1, ins, True)
    s.bulk(st, d, n if not isconst(n) else n, ('fill', b), s.prog.loc(ins))
    return d


def m_pure_int(s, st, ins, a):
    import ir
    nm = ins.a[0][1] if ins.a[0][0] == 'glob' else 'pure'
    return app('pure', nm, *[st.norm(x) for x in a], rng=(-(1 << 31), (1 << 31) - 1))


# varargs: x86-64 va_list {gp_offset, fp_offset, overflow_arg_area, reg_save_area}; the register save area
# is modelled as exhausted so that every argument is fetched from the overflow area, 8 bytes each
def m_va_start(s, st, ins, a):
    fr = st.frames[-1]
    va = fr.env.get('...', ())
    k = s.inst(st, ('va', fr.f.key))
    area = app('nptr', 'va:' + fr.f.key, k)
    loc = s.prog.loc(ins)
    s.write(st, a[0], 4, const(48), loc)
    s.write(st, add(a[0], const(4)), 4, const(176), loc)
    s.write(st, add(a[0], const(8)), 8, area, loc)
    s.write(st, add(a[0], const(16)), 8, ZERO, loc)
    for i, v in enumerate(va):
        if isinstance(v, Lin):
            s.write(st, add(area, const(8 * i)), 8, v, loc)
    s.event(st, 'va_start', [a[0]], None, ins)
    return None


def m_va_end(s, st, ins, a):
    s.event(st, 'va_end', [a[0]], None, ins)
    return None


def m_va_copy(s, st, ins, a):
    for o, z in ((0, 4), (4, 4), (8, 8), (16, 8)):
        v = s.read(st, add(a[1], const(o)), z, None)
        s.write(st, add(a[0], const(o)), z, v, s.prog.loc(ins))
    s.event(st, 'va_copy', [a[0], a[1]], None, ins)
    return None


# externals that change nothing the analysis looks at; any other unmodelled one taints the path
SAFE = set("""printf fprintf puts fputs putc putchar fputc fflush vfprintf vprintf perror strerror syslog vsyslog openlog closelog
getpid getppid time random rand srandom srand isatty getenv close fclose fdopen fopen open write dup dup2 fork _exit exit abort raise kill
sleep usleep signal errno __errno_location strchr strrchr strstr strtol strtoul atoi isspace isdigit isalpha isalnum toupper tolower
__ctype_b_loc __ctype_toupper_loc __ctype_tolower_loc getrusage gettimeofday fileno umask atexit on_exit fcntl unlink rename times sysconf
lseek setvbuf setbuf clearerr feof ferror strpbrk memchr execvp execv execl setsid _exit llvm.lifetime.start.p0 llvm.lifetime.end.p0 llvm.expect.i64
err_warning err_error localtime strftime fseek fseeko rewind ftell""".split())


def strlen_any(s, st, p, ins):
    return strlen(s, st, p, ins)


def copy_n(s, st, ins, d, src, n):
    n = st.norm(n)
    if st.decide(le(n, ZERO)) is True:
        return None
    return m_memcpy(s, st, ins, [d, src, n])


def m_strcpy(s, st, ins, a):
    copy_n(s, st, ins, a[0], a[1], add(strlen(s, st, a[1], ins), ONE))
    return a[0]


def m_strncpy(s, st, ins, a):
    L, n = strlen(s, st, a[1], None), st.norm(a[2])
    c = le(n, L)
    r = st.decide(c)
    if r is None:
        raise NeedSplit(st.norm(c))
    if r:
        copy_n(s, st, ins, a[0], a[1], n)
    else:
        copy_n(s, st, ins, a[0], a[1], L)
        s.access(st, add(a[0], L), 1, ins, True)
        s.bulk(st, add(a[0], L), sub(n, L), ('fill', ZERO), s.prog.loc(ins))
    return a[0]


def m_strdup(s, st, ins, a):
    n = add(strlen(s, st, a[0], ins), ONE)
    p = s.allocate(st, ins, n)
    s.event(st, 'malloc', [n], p, ins)
    copy_n(s, st, ins, p, a[0], n)
    if getattr(s, 'malloc_may_fail', True):
        x = st.copy()
        x.extra['oom'] = x.extra.get('oom', 0) + 1
        x.extra['oom_at'] = len(x.events)
        return [(st, p), (x, ZERO)]
    return p


def m_strnlen(s, st, ins, a):
    L = strlen(s, st, a[0], None)
    r = st.decide(le(L, a[1]))
    if r is None:
        raise NeedSplit(st.norm(le(L, a[1])))
    return L if r else a[1]


def known_text(s, st, p, limit=300):
    """the bytes of a constant text at p (with its end), or None"""
    root, idx = s.root_of(st, p)
    if root[0] != 'G' or not isconst(st.norm(idx[-1])):
        return None
    g = s.globobj.get(root[1])
    if g is None or not g.const:
        return None
    import ir
    out = []
    for i in range(limit):
        try:
            v = st.norm(s.read(st, add(p, const(i)), 1, ir.INTS[8]))
        except (GiveUp, NeedSplit, Fault):
            return None
        if not isconst(v):
            return None
        out.append(v.c & 255)
        if not out[-1]:
            return out
    return None


def m_strchr(s, st, ins, a):
    """a character looked up in a constant text"""
    name = ins.a[0][1] if ins.a[0][0] == 'glob' else 'strchr'
    t = known_text(s, st, a[0])
    c = st.norm(a[1])
    if name == 'memchr' and t is not None:
        n = st.norm(a[2])
        t = t[:n.c] if isconst(n) and n.c <= len(t) else None
    if t is None:
        ret = s.fresh(st, name, ptr=True)
        s.event(st, name, list(a), ret, ins)
        return ret
    if isconst(c):
        for i, k in (reversed if name == 'strrchr' else list)(list(enumerate(t))):
            if k == c.c & 255:
                return add(a[0], const(i))
        return ZERO
    if st.decide(le(const(-128), c)) is not True or st.decide(le(c, const(255))) is not True:
        raise GiveUp('%s of %s' % (name, c))
    for i, k in (reversed if name == 'strrchr' else list)(list(enumerate(t))):
        for v in {k, k - 256 if k > 127 else k}:
            q = st.norm(eq(c, const(v)))
            d = st.decide(q)
            if d is None:
                raise NeedSplit(q)
            if d:
                return add(a[0], const(i))
    return ZERO


def m_scribble(s, st, ins, a):
    """writes text the domain does not interpret into the buffer a[0]"""
    name = ins.a[0][1] if ins.a[0][0] == 'glob' else 'text'
    root, idx = s.root_of(st, a[0])
    if root[0] == 'NULL' and name in ('snprintf', 'vsnprintf'):
        return s.fresh(st, name, rng=(-1, (1 << 31) - 1))
    s.access(st, a[0], 1, ins, True)
    st.log[root] = st.log.get(root, ()) + (Entry((), True, tuple(st.norm(i) for i in idx), const(1 << 20), ('havoc', name), s.prog.loc(ins)),)
    ret = s.fresh(st, name, rng=(-1, (1 << 31) - 1)) if name not in ('strcat', 'strncat') else a[0]
    s.event(st, name, a, ret, ins)
    return ret
