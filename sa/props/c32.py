"""C32: statistics report the actual shape and the exact counters."""
from tableops import *

COUNTERS = ('resizings', 'retrievals', 'hits', 'misses')


def tables(ck):
    yield HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC'), 'hash', 'hsh_Stats', dict(
        create='hsh_create', get='hsh_get_stats', pr='hsh_print_stats', ins='hsh_insert', dele='hsh_delete', look='hsh_retrieve')
    yield HT(ck, 'set', 'table', 'bucket', 'elem', ['elem'], 'SET_MAGIC') if 'table' in ck.prog.mods['set'].structs() else HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC'), 'set', 'set_Stats', dict(
        create='set_create', get='set_get_stats', pr='set_print_stats', ins='set_insert', dele='set_delete', look='set_member')


def run(ck):
    for ht, mod, tag, fn in tables(ck):
        for c in COUNTERS:
            ck.need(c in ht.F, 'field %s.%s' % (mod, c))
        SF = fields_of(ck.prog, mod, tag)
        for f in ('size', 'entries', 'buckets_used', 'singletons', 'maximum_length') + COUNTERS:
            ck.need(f in SF, 'field %s.%s' % (tag, f))
        shape(ck, ht, mod, SF, fn)
        counting(ck, ht, mod, fn)
    memory(ck)
    pool(ck)
    source(ck)
    return dict(minimum=15)


def printed(o, want, which='the memory'):
    nm = 'the printed figures are those of %s, in their order' % which
    vals = [o.st.norm(v) for ev in o.st.events if ev.name in ('fprintf', 'printf') for v in ev.args]
    at = 0
    for f, v in want:
        same = [k for k, x in enumerate(vals) if x is o.st.norm(v)]
        if not same:
            return o.undec(nm, '"%s" is not among the printed values' % f)
        later = [k for k in same if k >= at]
        if not later:
            return o.fail(nm, '"%s" is printed where another figure is announced' % f)
        at = later[0] + 1
    o.good(nm)


def start(ck, ht):
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    return e, st, ht.table(e, st, 'T')


def kept(o, t, nm):
    """the call wrote nothing that belongs to the container"""
    if t.untouched(o) and not o.st.log.get(('P', single(t.T))) and not o.st.freed.get(('P', single(t.T))):
        return o.good(nm)
    for f, v in t.vals.items():
        o.equal(t.now(o, f), v, nm, 'field %s of the container becomes %s' % (f, t.now(o, f)))
    if not t.untouched(o):
        o.fail(nm, 'the contents of the container are changed')


def shape(ck, ht, mod, SF, fn):
    e, st, t = start(ck, ht)

    def post(o):
        if o.st.norm(o.ret) is ZERO:
            return o.fail('statistics are given', 'returns NULL')
        for f, v in (('size', t.p), ('entries', t.ent)) + tuple((c, t.vals[c]) for c in COUNTERS):
            x = o.fld(o.ret, SF, f)
            o.must(eq(x, v), 'the reported "%s" is exact' % f, 'reported %s, actually %s' % (x, v))
        kept(o, t, 'asking for statistics leaves the container as it is')
    ck.run(fn['get'], e, st, [t.T], post)

    # figures over all buckets: 0 to 3 buckets, chains of any length
    for P in (1, 2, 3):
        e, st, t = start(ck, ht)
        st.assume(eq(t.p, const(P)))

        def post(o, P=P):
            ns = [app('n', t.chain(const(h))) for h in range(P)]
            used = sum(1 for x in ns if o.need(lt(ZERO, x)))
            sing = sum(1 for x in ns if o.need(eq(x, ONE)))
            mx = ZERO
            for x in ns:
                if o.need(lt(mx, x)):
                    mx = x
            for f, v, d in (('buckets_used', const(used), 'non-empty buckets'), ('singletons', const(sing), 'buckets with one entry'), ('maximum_length', mx, 'the longest chain')):
                x = o.fld(o.ret, SF, f)
                o.must(eq(x, v), 'the reported "%s" is exact' % f, 'reported %s, but %s: %s' % (x, d, v))
        ck.run(fn['get'], e, st, [t.T], post, label='%d buckets' % P)

    # printing
    for lab in ('stream', 'no stream'):
        e, st, t = start(ck, ht)
        S = sym('stream', ptr=True)
        if lab == 'stream':
            st.facts = st.facts.assume(ne(S))
        else:
            S = ZERO

        def post_pr(o):
            kept(o, t, 'printing statistics leaves the container as it is')
            printed(o, [('resizings', t.vals['resizings']), ('size', t.p)], 'the container')
            printed(o, [('entries', t.ent)], 'the container')
            printed(o, [(c, t.vals[c]) for c in ('retrievals', 'hits', 'misses')], 'the container')
        ck.run(fn['pr'], e, st, [t.T, S], post_pr, label=lab)


def counting(ck, ht, mod, fn):
    k, d = sym('k', ptr=True), sym('d', ptr=True)
    # a new container
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    e.maynull_syms = (single(sym('hf', ptr=True)), single(sym('cf', ptr=True)))

    def post(o):
        for c in COUNTERS:
            x = o.fld(o.ret, ht.F, c)
            o.must(eq(x), 'counting starts at zero', '%s starts at %s' % (c, x))
    ck.run(fn['create'], e, st, [sym('hf', ptr=True), sym('cf', ptr=True)], post)

    def same(o, t, *but):
        for c in COUNTERS:
            if c not in but:
                o.must(eq(t.now(o, c), t.vals[c]), '"%s" counts nothing else' % c, '%s changes from %s to %s' % (c, t.vals[c], t.now(o, c)))

    def plus(o, t, c, n):
        o.must(eq(t.now(o, c), add(t.vals[c], const(n))), '"%s" counts exactly' % c, '%s becomes %s, expected %s' % (c, t.now(o, c), add(t.vals[c], const(n))))

    e, st, t = start(ck, ht)

    def post_look(o):
        st = o.st
        h = mk_urem(app('hashof', k, rng=(0, None)), t.p)
        S = t.chain(h)
        plus(o, t, 'retrievals', 1)
        same(o, t, 'retrievals', 'hits', 'misses')
        a = single(o.ret)
        if mod == 'hash':
            if o.ret is not ZERO and (a is None or a.fn != 'datum'):
                return o.undec('"hits" counts exactly', 'result %s' % o.ret)
            found = o.ret is not ZERO
        else:
            found = not o.need(eq(o.ret))
        plus(o, t, 'misses', 0 if found else 1)
        top = False
        if found and o.need(lt(ZERO, app('n', S))):
            top = o.need(eq(t.cmp(app(ht.key, S, ZERO, ptr=True), k)))
            if top and st.decide(eq(app('hash', S, ZERO, rng=(0, None)), app('hashof', k))) is False:
                return          # equal keys with different hash values: not a permitted pair of functions
        plus(o, t, 'hits', 1 if top else 0)
    ck.run(fn['look'], e, st, [t.T, k], post_look)

    args = [k] + ([d] if 'datum' in ht.payload else [])
    e, st, t = start(ck, ht)

    def post_ins(o):
        grown = o.st.norm(t.now(o, 'buckets')) is not o.st.norm(t.B)
        plus(o, t, 'resizings', 1 if grown else 0)
        same(o, t, 'resizings')
    ck.run(fn['ins'], e, st, [t.T] + args, post_ins, on_noreturn=lambda o, w: None)
    e, st, t = start(ck, ht)
    ck.run(fn['dele'], e, st, [t.T, k], lambda o: same(o, t), on_noreturn=lambda o, w: None)


def memory(ck):
    from props.c10 import Strings
    from props.c11 import Objects
    t = Strings(ck)
    MF = fields_of(ck.prog, 'memory', 'mem_StringStats')
    OF = fields_of(ck.prog, 'memory', 'mem_ObjectStats')
    for f in ('count', 'bytes'):
        ck.need(f in MF, 'field mem_StringStats.%s' % f)
    for f in ('total', 'used', 'reused', 'size'):
        ck.need(f in OF, 'field mem_ObjectStats.%s' % f)
    e, st = t.start()

    def unchanged(o, I, F, vals):
        for f, v in vals.items():
            o.equal(o.fld(I, F, f), v, 'asking for statistics changes nothing', '%s becomes %s' % (f, o.fld(I, F, f)))
        if o.st.freed.get(('P', single(I))):
            o.fail('asking for statistics changes nothing', 'the object is released')

    def post(o):
        for f, v in (('count', t.cnt), ('bytes', t.byt)):
            x = o.fld(o.ret, MF, f)
            o.must(eq(x, v), 'the reported "%s" is exact' % f, 'reported %s, actually %s' % (x, v))
        unchanged(o, t.I, t.F, {'count': t.cnt, 'bytes': t.byt, 'growing_size': t.g, 'allocated': t.K})
    ck.run('mem_get_string_stats', e, st, [t.I], post)
    e, st = t.start()
    st.facts = st.facts.assume(ne(sym('stream', ptr=True)))

    def post_ps(o):
        unchanged(o, t.I, t.F, {'count': t.cnt, 'bytes': t.byt, 'growing_size': t.g, 'allocated': t.K})
        printed(o, (('count', t.cnt), ('bytes', t.byt)))
    ck.run('mem_print_string_stats', e, st, [t.I, sym('stream', ptr=True)], post_ps)
    u = Objects(ck)
    e, st = u.start()
    uv = dict(u.c, size=u.size, stack=u.K, allocated=u.A)

    def post2(o):
        for f in ('total', 'used', 'reused', 'size'):
            v = uv[f]
            x = o.fld(o.ret, OF, f)
            o.must(eq(x, v), 'the reported "%s" is exact' % f, 'reported %s, actually %s' % (x, v))
        unchanged(o, u.I, u.F, uv)
    ck.run('mem_get_object_stats', e, st, [u.I], post2)
    e, st = u.start()
    st.facts = st.facts.assume(ne(sym('stream', ptr=True)))

    def post_po(o):
        unchanged(o, u.I, u.F, uv)
        printed(o, (('total', u.c['total']), ('used', u.c['used']), ('reused', u.c['reused'])))
    ck.run('mem_print_object_stats', e, st, [u.I, sym('stream', ptr=True)], post_po)


def pool(ck):
    PF = fields_of(ck.prog, 'string', 'poolInfo')
    SF = fields_of(ck.prog, 'string', 'str_Stats')
    for f in ('string', 'hash'):
        ck.need(f in PF, 'field poolInfo.%s' % f)
    ht = HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC')
    from props.c10 import Strings
    t = Strings(ck)
    for lab in ('pool', 'no pool'):
        e, st = t.start()
        ht.install(e)
        T = ht.table(e, st, 'T')
        P = sym('pool', ptr=True)
        obj(e, P, PF, {'string': t.I, 'hash': T.T})
        st.facts = st.facts.assume(ne(P))
        e.check_bounds = False
        have = lab == 'pool'

        def post(o, have=have):
            for f, v in (('count', t.cnt), ('bytes', t.byt), ('retrievals', T.vals['retrievals']), ('hits', T.vals['hits']), ('misses', T.vals['misses'])):
                ck.need(f in SF, 'field str_Stats.%s' % f)
                x = o.fld(o.ret, SF, f)
                v = v if have else ZERO
                w = o.e.trunc(o.st, v, 32) if False else v
                nm = 'a pool reports its own strings and lookups'
                if x is w or o.st.decide(eq(x, w)) is True:
                    o.good(nm)
                    continue
                # a count kept in a narrower field is the same number while it fits
                a = single(o.st.norm(x))
                if a is not None and a.fn in ('trunc', 'uns', 'sext') and v in a.args:
                    o.good(nm)
                    continue
                if have and a is not None and a.fn in ('trunc', 'uns', 'sext') and isinstance(a.args[0], Lin) and a.args[0].t and not any(isinstance(q, Lin) for t in a.args[0].t for q in t[0].args):
                    x = a.args[0]       # while it fits
                o.must(eq(x, v), nm, 'reports %s = %s, actually %s' % (f, x, v))
        ck.run('str_pool_get_stats', e, st, [P if have else ZERO], post, label=lab)


def source(ck):
    """the source manager: its lines and the counters of its two stores"""
    from props import c28
    SF = fields_of(ck.prog, 'source', 'src_Stats')
    MF = fields_of(ck.prog, 'memory', 'mem_StringStats')
    OF = fields_of(ck.prog, 'memory', 'mem_ObjectStats')
    for f in ('lines_used', 'lines_bytes', 'tokens_total', 'tokens_reused', 'tokens_size'):
        ck.need(f in SF, 'field src_Stats.%s' % f)
    nm = 'the source manager reports its own lines and tokens'
    for used in (False, True):
        e = c28.engine(ck)
        fig = {}

        def stats(name, F):
            def m(en, st, ins, a):
                h = st.norm(a[0])
                t = st.extra.get(('mem', h))
                if t is None:
                    raise GiveUp('%s of %s' % (name, h))
                p = en.allocate(st, ins, const(max(o + z for o, z, _ in F.values())))
                for f, (o, z, _) in F.items():
                    v = sym('%s_%s' % (t[0], f), rng=(0, 1 << 30))
                    en.write(st, add(p, const(o)), z, v, en.prog.loc(ins))
                return p
            return m
        e.models['mem_get_string_stats'] = stats('strings', MF)
        e.models['mem_get_object_stats'] = stats('objects', OF)
        if used:
            try:
                st, p = c28.prefix(ck, e)
            except GiveUp as g:
                ck.undecided('src_get_stats', 'statistics', g)
                continue
        else:
            st = e.new_state()

        def post(o, used=used):
            want = {'lines_used': const(3), 'lines_bytes': sym('strings_bytes', rng=(0, 1 << 30)), 'tokens_total': sym('objects_total', rng=(0, 1 << 30)),
                    'tokens_reused': sym('objects_reused', rng=(0, 1 << 30)), 'tokens_size': sym('objects_size', rng=(0, 1 << 30))}
            for f, v in want.items():
                x = o.fld(o.ret, SF, f)
                v = v if used else ZERO
                o.must(eq(x, v), nm, 'reports %s = %s, actually %s' % (f, x, v))
            la = o.fld(o.ret, SF, 'lines_allocated')
            if used:
                o.must(lt(const(2), la), nm, 'reports %s allocated lines for three' % la)
            else:
                o.must(eq(la), nm, 'reports %s allocated lines without a source' % la)
        ck.run('src_get_stats', e, st, [], post, label='three lines' if used else 'no source')
