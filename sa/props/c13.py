"""C13: running out of memory is fatal at the point of failure."""
from spec import *

RAW = ('malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup', 'aligned_alloc', 'asprintf', 'vasprintf', 'posix_memalign', 'valloc', 'memalign')
NM = 'failing to get memory ends in a fatal error there'


def run(ck):
    prog = ck.prog
    callers = {}
    for key, f in prog.funcs.items():
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            for i in b.ins:
                if i.op == 'call' and i.a[0][0] == 'glob':
                    t = prog.resolve(f.mod, i.a[0][1])
                    callers.setdefault(t.key if t is not None else i.a[0][1], set()).add(key)
    work = sorted({k for r in RAW for k in callers.get(r, ())})
    ck.need(work, 'callers of the system allocator')
    ck.extra['functions_calling_the_system_allocator'] = work
    done = set()
    while work:
        k = work.pop(0)
        if k in done:
            continue
        done.add(k)
        if one(ck, prog.funcs[k]):
            more = sorted(callers.get(k, ()))      # a static helper hands the null pointer on: its callers must end the program
            work += more
    for fn in ('xmalloc', 'xcalloc', 'xrealloc', 'xstrdup'):
        e, st, args = generic(ck, prog.func(fn), fn)

        def post(o):
            o.must(ne(o.ret), 'the checking allocators never give NULL', 'returns a null pointer')
        ck.run(fn, e, st, args, post, label='result', on_noreturn=lambda o, how: None)
    sizes(ck)
    return dict(minimum=10)


def sizes(ck):
    """what the checking allocators give is as large as it was asked for: also when the product does not fit"""
    nm = 'the block is as large as asked for'

    def engine(**kw):
        e = ck.engine(**kw)
        e.check_bounds = True
        plain = e.models['calloc']

        def calloc(en, st, ins, a):
            x, y = st.norm(a[0]), st.norm(a[1])
            if isconst(x) and isconst(y) and x.c * y.c >= 1 << 63:
                return ZERO
            return plain(en, st, ins, a)
        e.models['calloc'] = calloc
        return e
    for x, y in ((1 << 33, 1 << 33), (1 << 62, 4), (8, 1 << 61), (1 << 32, 1 << 31)):
        e = engine()
        ck.run('xcalloc', e, e.new_state(), [const(x), const(y)], lambda o, x=x, y=y: o.fail(nm, 'gives a block for %d x %d bytes, which no memory holds' % (x, y)), label='%d x %d' % (x, y), on_noreturn=lambda o, how: o.good(nm) if how in ('err_fatal', 'err_internal', 'err_fatal_errno') else o.fail(nm, how))
    n = sym('size', rng=(1, 1 << 40))
    BIG = const((1 << 32) + 8)
    for fn, args, want in (('xmalloc', [n], n), ('xcalloc', [n, const(24)], mul(n, 24)), ('xcalloc', [const(1), n], n), ('xrealloc', [ZERO, n], n), ('xmalloc', [BIG], BIG), ('xrealloc', [ZERO, BIG], BIG), ('xcalloc', [BIG, ONE], BIG), ('xcalloc', [ONE, BIG], BIG)):
        e = engine()
        e.malloc_may_fail = False

        def post(o):
            try:
                root, idx = o.e.root_of(o.st, o.ret)
                sz = o.e.objsize(o.st, root, idx)
            except GiveUp:
                sz = None
            if sz is None:
                return o.undec(nm, 'size of %s unknown' % o.ret)
            o.must(le(want, sz), nm, 'the block has %s bytes of %s' % (sz, want))
        ck.run(fn, e, e.new_state(), args, post, label='size')


def generic(ck, f, name):
    ck.need(f is not None, 'function %s' % name)
    e = ck.engine(malloc_may_fail=True)
    e.models['err_warning'] = lambda en, s2, ins, a: en.event(s2, 'err_warning', [], None, ins)
    st = e.new_state()
    args = []
    for j, (ty, nm) in enumerate(f.params):
        p = sym('arg%d' % j, ptr=ty.k == 'ptr') if ty.k == 'ptr' else sym('arg%d' % j, rng=E.tyrange(ty))
        if ty.k == 'ptr':
            st.facts = st.facts.assume(ne(p))
        args.append(p)
    return e, st, args


def one(ck, f):
    """True when a static function hands the failure on to its callers"""
    e, st, args = generic(ck, f, f.name)
    ck.entries.append(f.name)
    lab = f.name
    try:
        outs = e.run(st, f, args)
    except Exception as x:
        if DEBUG:
            raise
        ck.undecided(lab, 'analysis', '%s %s' % (type(x).__name__, x))
        return False
    for k in ck.stats:
        ck.stats[k] += e.stats.get(k, 0)
    ck.functions |= e.stats['functions']
    passed = False
    for o in outs:
        if not o.extra.get('oom'):
            continue
        t = o.term or 'ret'
        where = '%s.c' % f.mod.name
        if t.startswith('noreturn'):
            if t[9:] in ('err_fatal', 'err_fatal_errno'):
                after = [x for x in o.events[o.extra.get('oom_at', 0):] if not (isinstance(x, Ev) and (x.name in e.noreturn_names or x.name == '__errno_location'))]
                if after:
                    ck.violated(lab, NM, 'the program goes on to %s after the failure' % (after[0],), where)
                else:
                    ck.ok(lab, NM)
            else:
                ck.violated(lab, NM, 'the program ends in %s, without the fatal-error report' % t[9:], where)
        elif t.startswith('giveup') or taints(o):
            ck.undecided(lab, NM, '%s %s' % (t, taints(o)))
        elif t.startswith('fault') or t.startswith('soft'):
            kind, loc, msg, stack = o.errs[-1]
            if kind.endswith('?'):
                ck.undecided(lab, NM, msg)
            else:
                ck.violated(lab, NM, 'the null pointer is used: %s' % msg, loc, [showc(c) for c in o.path])
        elif t == 'unreachable':
            continue
        elif f.internal and isinstance(o.retval, Lin) and o.norm(o.retval) is ZERO:
            passed = True
        else:
            ck.violated(lab, NM, 'the function returns normally although it got no memory', where, [showc(c) for c in o.path])
    return passed
