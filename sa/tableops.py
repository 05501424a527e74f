"""Obligations shared by the hash table and the set: one abstract pre-state, every operation."""
from htable import *


def table_ops(ck, ht, fn, found):
    k, d = sym('k', ptr=True), sym('d', ptr=True)
    newvals = {ht.key: k}
    if 'datum' in ht.payload:
        newvals['datum'] = d

    def start(readonly=None):
        e = ck.engine()
        ht.install(e)
        st = e.new_state()
        t = ht.table(e, st, 'T', readonly)
        return e, st, t

    # ---------------------------------------------------------------- create
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    e.maynull_syms = (single(sym('hf', ptr=True)), single(sym('cf', ptr=True)))

    def post_create(o):
        T = o.ret
        o.must(ne(T), 'create gives a table', 'create returned NULL')
        F = ht.F
        p = o.fld(T, F, 'prime')
        o.must(le(ONE, p), 'a new table has at least one bucket', 'number of buckets is %s' % p)
        o.equal(o.fld(T, F, 'entries'), ZERO, 'a new table is empty')
        o.equal(o.fld(T, F, 'readonly'), ZERO, 'a new table accepts changes')
        o.equal(o.fld(T, F, 'magic'), const(ht.magic), 'a new table passes its own handle check')
        tab = Tab(ht, T, sym('nothing', ptr=True), ONE, ZERO, {})
        ps = tab.pushes(o, o.fld(T, F, 'buckets'), p)
        if ps:
            o.fail('a new table is empty', 'entries are stored')
        for f, a in (('hash', 'hf'), ('compare', 'cf')):
            v = o.fld(T, F, f)
            x = sym(a, ptr=True)
            if o.need(eq(x)):
                o.must(ne(v), 'NULL selects a default %s function' % f, 'no function installed')
            else:
                o.equal(v, x, 'the given %s function is used' % f)
    ck.run(fn['create'], e, st, [sym('hf', ptr=True), sym('cf', ptr=True)], post_create)

    # ---------------------------------------------------------------- insert
    e, st, t = start()
    ro = t.vals['readonly']

    def refused(o, how):
        o.must(ne(ro), 'a writable table is changed, not refused', 'ends in %s although the table is not read-only' % how)
        if t.untouched(o):
            o.good('a refused call changes nothing')
        else:
            o.fail('a refused call changes nothing', 'the table was modified before the refusal')

    def post_insert(o):
        st = o.st
        o.must(eq(ro), 'a read-only table refuses insertion', 'insertion into a read-only table returns normally')
        p2, B2, ent2 = t.now(o, 'prime'), t.now(o, 'buckets'), t.now(o, 'entries')
        ret = o.ret
        isnew = o.need(eq(ret))
        hv = app('hashof', k, rng=(0, None))
        if st.norm(B2) is st.norm(t.B):
            o.must(eq(p2, t.p), 'the bucket count matches the bucket array')
            eds = t.edits(o)
            h = mk_urem(hv, t.p)
            S = t.chain(h)
            if not isnew:
                if single(st.norm(ret)) is None and not isconst(st.norm(ret)):
                    pass
                o.must(eq(ret, ONE), 'insert returns 1 for a present key')
                o.must(eq(ent2, t.ent), 'a rejected insert changes nothing', 'entry count changes from %s to %s' % (t.ent, ent2))
                for hh, segs in eds:
                    ok = all(x[0] == 'run' for x in segs) and all(x[1] is t.chain(hh) for x in segs) and tile(o, segs, ZERO, app('n', t.chain(hh)))
                    (o.good if ok else lambda n: o.fail(n, 'chain becomes %s' % (segs,)))('a rejected insert changes nothing')
                present(o, t, S, k, 'insert rejects only a key that is present')
                return
            o.must(eq(ent2, add(t.ent, ONE)), 'the entry count is exact', 'entry count becomes %s, expected %s' % (ent2, add(t.ent, ONE)))
            if len(eds) != 1:
                o.fail('insert adds exactly one entry', '%d chains are changed' % len(eds))
                return
            hh, segs = eds[0]
            o.must(eq(hh, h), 'an entry sits in the bucket its lookup will search', 'stored in bucket %s, looked up in bucket %s' % (hh, h))
            nodes = [x for x in segs if x[0] == 'node']
            runs = [x for x in segs if x[0] == 'run']
            S = t.chain(hh)
            if len(nodes) == 1 and all(x[1] is S for x in runs) and tile(o, runs, ZERO, app('n', S)):
                o.good('insert keeps the existing entries of the bucket')
            else:
                o.fail('insert keeps the existing entries of the bucket', 'the bucket becomes %s' % (segs,))
                return
            x = nodes[0][1]
            for f in ht.payload:
                o.equal(o.fld(x, ht.N, f), newvals[f], 'the new entry has the given %s' % f)
            o.equal(o.fld(x, ht.N, 'hash'), hv, 'the new entry remembers its hash')
            t.all_unequal(o, t.chain(h), k, 'insert refuses a key that is already present')
            if st.freed.get(t.eroot()):
                o.fail('insert keeps the existing entries of the bucket', 'an existing entry is freed')
            return
        # grown
        ps = t.pushes(o, B2, p2)
        new = t.check_moved(o, ps, p2)
        ok_sz = grown_size(o, B2, p2)
        if isnew:
            o.must(eq(ent2, add(t.ent, ONE)), 'the entry count is exact', 'entry count becomes %s' % ent2)
            if len(new) != 1 or new[0][0][0]:
                o.fail('insert adds exactly one entry', '%d new entries' % len(new))
                return
            (b, g, h, x, st2), f = new[0]
            for nm in ht.payload:
                o.equal(f[nm], newvals[nm], 'the new entry has the given %s' % nm)
            o.equal(f['hash'], hv, 'the new entry remembers its hash')
            t.in_bucket(o, st2, h, hv, p2)
            # the search of the grown bucket covered all of it
            S = last_head(o, x)
            if S is None and o.st.norm(o.fld(x, ht.N, 'next')) is ZERO:
                o.good('insert refuses a key that is already present')      # the grown bucket is empty
            elif S is None:
                o.undec('insert refuses a key that is already present', 'no search of the grown bucket')
            else:
                t.all_unequal(o, S, k, 'insert refuses a key that is already present')
        else:
            o.must(eq(ret, ONE), 'insert returns 1 for a present key')
            o.must(eq(ent2, t.ent), 'a rejected insert changes nothing', 'entry count becomes %s' % ent2)
            if new:
                o.fail('a rejected insert changes nothing', 'an entry is added')
        # nothing of the table is freed and still used
    def last_head(o, x):
        nx = o.st.norm(o.fld(x, ht.N, 'next'))
        a = single(nx)
        return a.args[0] if a is not None and a.fn == 'elem' else None

    def grown_size(o, B2, p2):
        root, idx = o.e.root_of(o.st, B2)
        z = o.e.objsize(o.st, root, idx)
        if z is None:
            o.undec('the bucket array holds every bucket', 'size unknown')
        else:
            o.must(le(mul(p2, WORD), z), 'the bucket array holds every bucket', '%s bytes for %s buckets' % (z, p2))
    args = [t.T, k] + ([d] if 'datum' in ht.payload else [])
    ck.run(fn['insert'], e, st, args, post_insert, on_noreturn=refused)

    # ---------------------------------------------------------------- delete
    e, st, t = start()

    def post_delete(o):
        st = o.st
        o.must(eq(ro), 'a read-only table refuses deletion', 'deletion from a read-only table returns normally')
        h = mk_urem(app('hashof', k, rng=(0, None)), t.p)
        S = t.chain(h)
        ret, ent2 = o.ret, t.now(o, 'entries')
        fr = st.freed.get(t.eroot(), ())
        o.must(eq(t.now(o, 'buckets'), t.B), 'the bucket count matches the bucket array')
        o.must(eq(t.now(o, 'prime'), t.p), 'the bucket count matches the bucket array')
        eds = t.edits(o)
        if not o.need(eq(ret)):
            o.must(eq(ret, ONE), 'delete returns 1 for an absent key')
            o.must(eq(ent2, t.ent), 'deleting an absent key changes nothing', 'entry count becomes %s' % ent2)
            if fr:
                o.fail('deleting an absent key changes nothing', 'an entry is freed')
            for hh, segs in eds:
                if not (all(x[0] == 'run' and x[1] is t.chain(hh) for x in segs) and tile(o, segs, ZERO, app('n', t.chain(hh)))):
                    o.fail('deleting an absent key changes nothing', 'the bucket becomes %s' % (segs,))
            t.all_unequal(o, S, k, 'delete finds every present key')
            return
        o.must(eq(ent2, sub(t.ent, ONE)), 'the entry count is exact', 'entry count becomes %s' % ent2)
        if len(eds) != 1:
            o.fail('delete removes exactly the entry of the key', '%d chains are changed' % len(eds))
            return
        hh, segs = eds[0]
        o.must(eq(hh, h), 'delete removes exactly the entry of the key', 'bucket %s is changed instead of %s' % (hh, h))
        # the hole
        S = t.chain(hh)
        m = hole(o, segs, S)
        if m is None:
            o.fail('delete removes exactly the entry of the key', 'the bucket becomes %s' % (segs,))
            return
        o.must(eq(t.cmp(app(ht.key, S, m, ptr=True), k)), 'delete removes exactly the entry of the key', 'the removed entry need not have the given key')
        for en in fr:
            o.must(conj(eq(en.idx[0], hh), eq(en.idx[1], m)) if not en.binders else False, 'delete frees only what it removed', 'another entry is freed')
    ck.run(fn['delete'], e, st, [t.T, k], post_delete, on_noreturn=refused)

    # ---------------------------------------------------------------- lookup
    e, st, t = start()

    def post_lookup(o):
        st = o.st
        h = mk_urem(app('hashof', k, rng=(0, None)), t.p)
        S = t.chain(h)
        ret = o.ret
        o.must(eq(t.now(o, 'buckets'), t.B), 'lookup keeps the contents')
        o.must(eq(t.now(o, 'prime'), t.p), 'lookup keeps the contents')
        o.must(eq(t.now(o, 'entries'), t.ent), 'lookup keeps the contents', 'entry count becomes %s' % t.now(o, 'entries'))
        o.equal(t.now(o, 'readonly'), ro, 'lookup keeps the contents')
        if st.freed.get(t.eroot()):
            o.fail('lookup keeps the contents', 'an entry is freed')
        eds = t.edits(o)
        for hh, segs in eds:
            SS = t.chain(hh)
            ok = all(x[0] == 'run' and x[1] is SS for x in segs) and tile(o, segs, ZERO, app('n', SS))
            if ok:
                o.good('lookup keeps the contents')
            else:
                o.fail('lookup keeps the contents', 'the bucket becomes %s' % (segs,))
        if eds and not o.need(eq(ro)):
            o.fail('a read-only table is not reorganised', 'links are changed while the table is read-only')
        a = single(ret)
        if found == 'datum' and a is not None and a.fn == 'datum':
            SS, m = a.args
            o.must(SS is S or eq(SS.args[1], h), 'lookup answers for the given key', 'the datum comes from bucket %s' % (SS,))
            o.must(conj(le(ZERO, m), lt(m, app('n', SS))), 'lookup answers for the given key')
            o.must(eq(t.cmp(app(ht.key, SS, m, ptr=True), k)), 'lookup answers for the given key', 'the datum of an entry that need not have the key is returned')
        elif found == 'datum' and ret is not ZERO:
            o.must(eq(ret), 'lookup answers for the given key', 'returns %s' % ret)
        elif found == 'flag' and not o.need(eq(ret)):
            o.must(eq(ret, ONE), 'lookup answers for the given key', 'returns %s' % ret)
            present(o, t, S, k, 'lookup answers for the given key')
        else:
            t.all_unequal(o, S, k, 'lookup finds every present key')
    ck.run(fn['lookup'], e, st, [t.T, k], post_lookup)


def hole(o, segs, S):
    """the single index missing from [0,n(S))"""
    if not all(x[0] == 'run' and x[1] is S for x in segs):
        return None
    n = app('n', S)
    segs = [x for x in segs if not o.need(le(x[3], x[2]))]
    if not segs:
        return ZERO if o.need(eq(n, ONE)) else None
    if len(segs) == 1:
        lo, hi = segs[0][2], segs[0][3]
        if o.need(eq(lo, ONE)) and o.need(eq(hi, n)):
            return ZERO
        if o.need(eq(lo)) and o.need(eq(hi, sub(n, ONE))):
            return hi
        return None
    if len(segs) == 2:
        a, b = segs
        if o.need(eq(a[2])) and o.need(eq(b[3], n)) and o.need(eq(b[2], add(a[3], ONE))):
            return a[3]
        a, b = b, a
        if o.need(eq(a[2])) and o.need(eq(b[3], n)) and o.need(eq(b[2], add(a[3], ONE))):
            return a[3]
    return None


def present(o, t, S, k, nm):
    """some element on this path was compared equal to k, and it is in S"""
    st = o.st
    cand = {}
    for c in st.path:
        for a in deep_atoms(c):
            if a.fn in (t.ht.key, 'cmp', 'hash'):
                for b in deep_atoms(a):
                    if b.fn == t.ht.key and isinstance(b.args[0], Atom) and b.args[0].fn == 'chain':
                        cand[b] = 1
    for b in list(cand):
        SS, m = st.norm(b.args[0]) if not isinstance(b.args[0], Atom) else b.args[0], st.norm(b.args[1])
        if st.decide(eq(st.norm(t.cmp(st.norm(b.lin), st.norm(k))))) is True:
            o.must(eq(SS.args[1], S.args[1]), nm, 'compared with an entry of bucket %s, the key belongs to bucket %s' % (SS.args[1], S.args[1]))
            o.must(lt(m, app('n', SS)), nm)
            return
    o.fail(nm, 'no entry was found equal to the key')
