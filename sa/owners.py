"""Destroy operations: for each kind of object one abstract pre-state (of any size) and what it owns."""
from iterops import *
from seqs import *


def note_release(e, P, off, size=4):
    """remember the magic number the object carries when its memory is given back"""
    import models
    root = ('P', single(P))

    def hook(st, idx, sz, w):
        if w == 'free':
            st.extra['magic_at_release'] = e.read(st, add(P, const(off)), size, ir.INTS[size * 8])
        return None
    e.guards[root] = hook


def giveback(en, s2, ins, a):
    import models
    en.event(s2, 'mem_free_object', list(a), None, ins)
    models.do_free(en, s2, ins, a[1])


def freed_visits(o, t, nm):
    """released entries of a table as visits of those entries"""
    out = []
    for en in o.st.freed.get(t.eroot(), ()):
        S = t.chain(en.idx[0])
        ev = Ev('visit', [app(p, S, en.idx[-2]) for p in t.ht.payload], None, en.loc)
        cur = ev if en.guard is True else EvIf(en.guard, [ev], [])
        for v, lo, hi in reversed(en.binders):
            cur = EvFor(v, lo, hi, [cur])
        out.append(cur)
    return out


def released_once(o, p, nm, what):
    root = ('P', single(p))
    es = o.st.freed.get(root, ())
    es = [x for x in es if x.guard is True or o.need(x.guard)]
    (o.good if es else lambda n: o.fail(n, '%s is never released' % what))(nm)


def nothing_else(o, allowed, nm='nothing else is released'):
    for r in o.st.freed:
        if r[0] == 'A' or not o.st.freed[r]:
            continue
        if not any(r == a or (a[0] == 'E' and r[:len(a)] == a) for a in allowed):
            es = [x for x in o.st.freed[r] if x.guard is True or o.need(x.guard)]
            if es:
                o.fail(nm, '%s is released (%s)' % (r[1:], es[0].loc))
                return
    o.good(nm)


def no_leak(o, keep=(), nm='memory obtained on the way is released again'):
    """every block allocated during the call is released (or one of `keep`)"""
    for b, g, ev in named(o.st.events, 'malloc', 'realloc'):
        if b:
            continue            # families of blocks are judged by where they are stored
        if g is not True and not o.need(g):
            continue
        p = o.st.norm(ev.ret)
        if p is ZERO or single(p) is None:
            continue
        if any(o.st.norm(k) is p for k in keep):
            continue
        root, idx = o.e.root_of(o.st, p)
        if o.st.freed.get(root) and o.e.is_freed(o.st, root, idx):
            continue
        if escapes(o, p):
            continue
        o.fail(nm, 'the block allocated at %s is neither released nor kept anywhere' % ev.loc)
        return
    o.good(nm)


def escapes(o, p):
    """is the block reachable from the result or from memory that lives on?"""
    a = single(p)
    if o.st.retval is not None and isinstance(o.st.retval, Lin) and a in set(deep_atoms(o.ret)):
        return True
    for root, es in o.st.log.items():
        for en in es:
            if isinstance(en.val, Lin) and any(x is a for x in deep_atoms(o.st.norm(en.val))):
                if root[0] == 'A' and root[1] is a:
                    continue
                try:
                    if o.st.freed.get(root) and o.e.is_freed(o.st, root, en.idx):
                        continue
                except (NeedSplit, GiveUp, Unresolved):
                    pass
                return True
    return False


ALL = 'everything the object owns is released once'


def table_case(ck, ht, fn):
    def build(readonly):
        e = ck.engine()
        ht.install(e)
        st = e.new_state()
        t = ht.table(e, st, 'T', readonly)
        note_release(e, t.T, ht.F['magic'][0])
        return e, st, t
    e, st, t = build(ZERO)

    def post(o):
        regs = regions(o, t, freed_visits(o, t, ALL), ALL)
        complete(o, t, regs, ALL)
        disjoint(o, t, regs, ALL)
        o.results = [(k, n, m.replace('shown', 'released')) for k, n, m in o.results]
        released_once(o, t.B, ALL, 'the bucket array')
        released_once(o, t.T, ALL, 'the table')
        nothing_else(o, [t.eroot(), ('P', single(t.B)), ('P', single(t.T))])
        no_leak(o)
    yield fn, None, e, st, [t.T], post, None, t.T
    e, st, t = build(ONE)

    def post(o):
        o.fail('a protected table is not destroyed', 'the call returns normally')

    def nr(o, how):
        if t.untouched(o) and not o.st.freed.get(('P', single(t.T))):
            o.good('a protected table is not destroyed')
        else:
            o.fail('a protected table is not destroyed', 'it is reported (%s) after memory has been released' % how)
    yield fn, 'protected', e, st, [t.T], post, nr, None


def stack_case(ck):
    q = Seq(ck, 'stack', 'stack', 'data', 'datum', 'prev')
    K = sym('K', ptr=True)
    S = atom('lchain', single(K))
    e = ck.engine()
    q.install(e)
    st = e.new_state()
    obj(e, K, q.O, {'data': app('elem', S, ZERO)})
    st.facts = st.facts.assume(ne(K))
    small(st, app('n', S))

    def post(o):
        q.only_freed(o, S, ZERO, app('n', S), ALL)
        released_once(o, K, ALL, 'the stack')
        nothing_else(o, [('E', 'lchain'), ('P', single(K))])
        no_leak(o)
    yield 'stk_destroy', None, e, st, [K], post, None, None


def list_case(ck):
    q = Seq(ck, 'list', 'list', 'data', 'datum', 'next')
    L = sym('L', ptr=True)
    S = atom('lchain', single(L))
    n = app('n', S, rng=(0, (1 << 31) - 2))
    e = ck.engine()
    q.install(e)
    st = e.new_state()
    mg = macros(['LST_MAGIC'])['LST_MAGIC']
    obj(e, L, q.O, {'magic': const(mg), 'head': app('elem', S, ZERO), 'tail': ite(le(n, ZERO), ZERO, app('elem', S, sub(n, ONE))), 'count': n})
    st.facts = st.facts.assume(ne(L))
    small(st, n)
    e.models['mem_free_object'] = giveback
    note_release(e, L, q.O['magic'][0])

    def post(o):
        q.only_freed(o, S, ZERO, n, ALL)
        released_once(o, L, ALL, 'the list')
        nothing_else(o, [('E', 'lchain'), ('P', single(L))])
        no_leak(o)
    yield 'lst_destroy', None, e, st, [L], post, None, L


class Blocks(Seq):
    """a stack whose elements are blocks of memory it owns"""

    def install(s, e):
        s.tag = 'lchain'

        def node(st, r, i, sz, ty):
            if not isconst(i[-1]):
                return None
            par = tuple(x for x in r[2:]) + tuple(i[:-2])
            S = atom('lchain', *par)
            if i[-1].c == s.N[s.link][0]:
                return app('elem', S, add(i[-2], ONE))
            if i[-1].c == s.N[s.payload][0]:
                return app('elem', atom('blocks', *par), i[-2])
        e.regions[('E', 'lchain')] = node


def memory_case(ck, fn, tag, mgname, stacks):
    q = Blocks(ck, 'stack', 'stack', 'data', 'datum', 'prev')
    F = fields_of(ck.prog, 'memory', tag)
    I = sym('I', ptr=True)
    mg = macros([mgname])[mgname]
    e = ck.engine()
    q.install(e)
    st = e.new_state()
    v = {'magic': const(sg(mg))}
    ks = {}
    for f in stacks:
        ck.need(f in F, 'field %s.%s' % (tag, f))
        ks[f] = sym('S_' + f, ptr=True)
        v[f] = ks[f]
        obj(e, ks[f], q.O, {'data': app('elem', atom('lchain', single(ks[f])), ZERO)})
        st.facts = st.facts.assume(ne(ks[f]))
        st.assume(eq(app('n', atom('blocks', single(ks[f]))), app('n', atom('lchain', single(ks[f])))))
    obj(e, I, F, v)
    st.facts = st.facts.assume(ne(I))
    small(st, *[app('n', atom('lchain', single(k))) for k in ks.values()])
    note_release(e, I, F['magic'][0])

    def post(o):
        for f in stacks:
            S = atom('lchain', single(ks[f]))
            q.only_freed(o, S, ZERO, app('n', S), ALL)
            released_once(o, ks[f], ALL, 'the stack "%s"' % f)
        S = atom('blocks', single(ks['allocated']))
        q.tag = 'blocks'
        q.only_freed(o, S, ZERO, app('n', S), ALL)
        q.tag = 'lchain'
        nothing_else(o, [('E', 'lchain'), ('E', 'blocks', single(ks['allocated'])), ('P', single(I))] + [('P', single(k)) for k in ks.values()])
        no_leak(o)
    yield fn, None, e, st, [I], post, None, I


def sg(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def skip_case(ck):
    F, N = fields_of(ck.prog, 'sl', '_sl_List'), fields_of(ck.prog, 'sl', '_sl_Entry')
    for f in ('head', 'magic'):
        ck.need(f in F, 'field _sl_List.%s' % f)
    ck.need('forward' in N and 'datum' in N, 'fields of _sl_Entry')
    L = sym('L', ptr=True)
    S = atom('lchain', single(L))
    n = app('n', S, rng=(1, (1 << 31) - 2))      # the head entry included
    e = ck.engine()
    st = e.new_state()
    mg = macros(['SL_LIST_MAGIC'])['SL_LIST_MAGIC']
    obj(e, L, F, {'magic': const(sg(mg)), 'head': app('elem', S, ZERO)})
    st.facts = st.facts.assume(ne(L))
    st.assume(le(ONE, n))

    def node(s2, r, i, sz, ty):
        if not isconst(i[-1]):
            return None
        if i[-1].c == N['forward'][0]:
            return app('elem', atom('lchain', *r[2:]), add(i[-2], ONE))
        if i[-1].c == N['datum'][0]:
            return app('datum', atom('lchain', *r[2:]), i[-2], ptr=True)
    e.regions[('E', 'lchain')] = node
    e.models['mem_free_object'] = giveback
    small(st, n)
    note_release(e, L, F['magic'][0])
    q = Seq.__new__(Seq)
    q.tag = 'lchain'

    def post(o):
        q.only_freed(o, S, ZERO, n, ALL)
        released_once(o, L, ALL, 'the list')
        nothing_else(o, [('E', 'lchain'), ('P', single(L))])
        no_leak(o)
    yield 'sl_destroy', None, e, st, [L], post, None, L


def parts_case(ck, fn, mod, tag, parts, extra, magic=None):
    """an object whose parts are released by their own destroy operation (or xfree)"""
    import models
    F = fields_of(ck.prog, mod, tag)
    P = sym('Obj', ptr=True)
    e = ck.engine()
    st = e.new_state()
    v = dict(extra)
    if magic:
        v['magic'] = const(sg(macros([magic])[magic]))
        note_release(e, P, F['magic'][0])
    ps = {}
    for f, d in parts.items():
        ck.need(f in F, 'field %s.%s' % (tag, f))
        ps[f] = sym('part_' + f, ptr=True)
        v[f] = ps[f]
        st.facts = st.facts.assume(ne(ps[f]))
        if d:
            def rel(en, s2, ins, a, d=d):
                s2.extra['rel'] = s2.extra.get('rel', ()) + ((d, s2.norm(a[0])),)
                models.do_free(en, s2, ins, a[0])
            e.models[d] = rel
    obj(e, P, F, v)
    st.facts = st.facts.assume(ne(P))

    def post(o):
        for f, d in parts.items():
            if d:
                ok = (d, ps[f]) in o.st.extra.get('rel', ())
                (o.good if ok else lambda n: o.fail(n, 'the part "%s" is not destroyed with %s' % (f, d)))(ALL)
            else:
                released_once(o, ps[f], ALL, 'the part "%s"' % f)
        released_once(o, P, ALL, 'the object')
        nothing_else(o, [('P', single(x)) for x in list(ps.values()) + [P]])
        no_leak(o)
    yield fn, None, e, st, [P], post, None, P if magic else None


def cases(ck):
    yield from table_case(ck, HT(ck, 'hash', 'table', 'bucket', 'key', ['key', 'datum'], 'HSH_MAGIC'), 'hsh_destroy')
    yield from table_case(ck, HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC'), 'set_destroy')
    yield from stack_case(ck)
    yield from list_case(ck)
    yield from memory_case(ck, 'mem_destroy_strings', 'stringInfo', 'MEM_STRINGS_MAGIC', ['allocated'])
    yield from memory_case(ck, 'mem_destroy_objects', 'objectInfo', 'MEM_OBJECTS_MAGIC', ['allocated', 'stack'])
    yield from skip_case(ck)
    yield from parts_case(ck, 'str_pool_destroy', 'string', 'poolInfo', {'string': 'mem_destroy_strings', 'hash': 'hsh_destroy'}, {})
    yield from parts_case(ck, 'arg_destroy', 'arg', 'Arg', {'object': 'mem_destroy_strings', 'argv': None}, {}, 'ARG_MAGIC')


def drops(ck, ht, ins, dele):
    """growing and deleting release exactly what they drop"""
    from tableops import hole
    NM = 'what is dropped is released, once, and nothing else'
    k, d = sym('k', ptr=True), sym('d', ptr=True)

    def start():
        e = ck.engine()
        ht.install(e)
        st = e.new_state()
        return e, st, ht.table(e, st, 'T', ZERO)
    e, st, t = start()

    def post(o):
        fr = o.st.freed
        if o.st.norm(t.now(o, 'buckets')) is t.B:
            nothing_else(o, [], NM)
        else:
            moved = any(isinstance(en.val, Lin) and any(a.fn == 'elem' and a.args[0].fn == 'chain' and a.args[0].args[0] is single(t.B) for a in deep_atoms(en.val)) for r, es in o.st.log.items() if r[0] == 'A' for en in es)
            if moved:
                return o.undec(NM, 'entries are moved, not copied')
            regs = regions(o, t, freed_visits(o, t, NM), NM)
            complete(o, t, regs, NM)
            disjoint(o, t, regs, NM)
            o.results = [(k, n, m.replace('shown', 'released')) for k, n, m in o.results]
            released_once(o, t.B, NM, 'the old bucket array')
            nothing_else(o, [t.eroot(), ('P', single(t.B))], NM)
        no_leak(o)
    yield ins, 'drops', e, st, [t.T, k] + ([d] if 'datum' in ht.payload else []), post
    e, st, t = start()

    def post(o):
        fr = o.st.freed.get(t.eroot(), ())
        if o.need(eq(o.ret)):
            eds = t.edits(o)
            if len(eds) == 1:
                S = t.chain(eds[0][0])
                m = hole(o, eds[0][1], S)
                if m is not None:
                    es = [x for x in fr if not x.binders and (x.guard is True or o.need(x.guard))]
                    if not es:
                        o.fail(NM, 'the removed entry is never released')
                    for en in es:
                        o.must(conj(eq(en.idx[0], eds[0][0]), eq(en.idx[-2], m)), NM, 'entry %s is released instead of %s' % (en.idx[-2], m))
            nothing_else(o, [t.eroot()], NM)
        else:
            nothing_else(o, [], NM)
        no_leak(o)
    yield dele, 'drops', e, st, [t.T, k], post
