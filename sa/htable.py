"""Chained hash tables (hash.c, set.c): abstract pre-states and content oracles."""
from spec import *
from facts import match_var

WORD = 8


class HT:
    def __init__(s, ck, mod, tag, node, key, payload, magic):
        s.ck, s.mod, s.tag, s.node, s.key, s.payload = ck, mod, tag, node, key, payload
        s.F = fields_of(ck.prog, mod, tag)
        s.N = fields_of(ck.prog, mod, node)
        if 'elem' in s.N:       # 'elem' names list nodes in this analysis
            s.N['member'] = s.N.pop('elem')
            s.payload = ['member' if f == 'elem' else f for f in s.payload]
            s.key = 'member' if key == 'elem' else key
        s.magic = macros([magic])[magic]
        for f in ('magic', 'prime', 'entries', 'buckets', 'readonly', 'hash', 'compare'):
            ck.need(f in s.F, 'field %s.%s' % (tag, f))
        for f in s.payload + ['hash', 'next']:
            ck.need(f in s.N, 'field %s.%s' % (node, f))
        s.byoff = {s.N[k][0]: k for k in s.N}

    # ------------------------------------------------------------- pre-state
    def install(s, e):
        """node contents for every chain of this module, array abstraction"""
        N, byoff = s.N, s.byoff

        def node(st, r, i, sz, ty):
            if not isconst(i[-1]) or i[-1].c not in byoff:
                return None
            nm = byoff[i[-1].c]
            par = tuple(x for x in r[2:]) + tuple(i[:-2])
            S = atom(r[1], *par)
            if nm == 'next':
                return app('elem', S, add(i[-2], ONE))
            return app(nm, S, i[-2], rng=(0, None) if nm == 'hash' else None, ptr=(nm != 'hash') or None)
        e.regions[('E', 'chain')] = node
        e.regions[('E', 'schain')] = node

        def ah(st, root, idx, ty):
            if ty is not None and ty.k != 'ptr':
                return None
            L = st.log.get(root, ())
            if L and not L[-1].binders and L[-1].guard is True and tuple(st.norm(x) for x in L[-1].idx) == idx:
                return None
            ver = st.norm(st.ctr.get(('ver', root), ZERO))
            return app('elem', atom('schain', root[1], idx[0], ver, mk_udiv(idx[-1], const(WORD))), ZERO)
        e.array_hook = ah

        # a prime generator is only required to give something positive
        if s.ck.prog.func('prm_next_prime') is not None:
            e.models['prm_next_prime'] = lambda en, st, ins, a: app('nextprime', a[0], rng=(1, 1 << 31))

    def table(s, e, st, nm='T', readonly=None, hashfn='hashfn', cmpfn='cmpfn', extra=None):
        T = sym(nm, ptr=True)
        B = sym('B_' + nm, ptr=True)
        p = sym('prime_' + nm, rng=(1, 1 << 31))
        i = atom('sym', 'j!0')
        ent = psum(i, app('n', atom('chain', single(B), i.lin)), p)
        if ent.t:
            ent.t[0][0].rng = (0, 1 << 40)
        hf, cf = sym(hashfn, ptr=True), sym(cmpfn, ptr=True)
        vals = {'magic': const(s.magic), 'prime': p, 'entries': ent, 'buckets': B,
                'readonly': sym('ro_' + nm, rng=(0, 1)) if readonly is None else readonly, 'hash': hf, 'compare': cf}
        for k in ('resizings', 'retrievals', 'hits', 'misses'):
            if k in s.F:
                vals[k] = sym(k + '_' + nm, rng=(0, None))
        vals.update(extra or {})
        obj(e, T, s.F, vals)
        b = single(B)

        def binit(st2, r, ix, sz, ty):
            off = ix[0]
            if off.c % WORD == 0 and all(k % WORD == 0 for _, k in off.t):
                return app('elem', atom('chain', b, mk_udiv(off, const(WORD))), ZERO)
        e.regions[('P', b)] = binit
        for x in (T, B, hf, cf):
            st.facts = st.facts.assume(ne(x))
        e.fpmodels[single(hf)] = lambda en, st2, ins, a, x: app('hashof', a[0], rng=(0, None))
        e.fpmodels[single(cf)] = lambda en, st2, ins, a, x: mk_cmp(st2.norm(a[0]), st2.norm(a[1]))
        n = lambda h: app('n', atom('chain', b, const(h)))
        shapes = [('%d entries in one bucket' % k, [eq(p, ONE), eq(n(0), const(k))]) for k in (0, 1, 2, 3)]
        shapes += [('%d and %d entries' % (j, k), [eq(p, const(2)), eq(n(0), const(j)), eq(n(1), const(k))]) for j, k in ((0, 1), (1, 0), (2, 1))]
        old = st.extra.get('shapes')
        if old:
            # every table small: the n-th shape of one with some shapes of the other
            shapes = [('%s; %s' % (x[0], y[0]), x[1] + y[1]) for x in old[:3] for y in shapes[:3]] + [('%s; %s' % (x[0], y[0]), x[1] + y[1]) for x, y in zip(old[3:], shapes[3:])]
        st.extra['shapes'] = shapes
        return Tab(s, T, B, p, ent, vals)


def mk_cmp(a, b):
    """a user comparison decides an equivalence: reflexive and symmetric as far as 'equal' goes"""
    if a is b:
        return ZERO
    return app('cmp', *sorted((a, b), key=lambda q: q.id), rng=(-(1 << 31), (1 << 31) - 1))


import terms
terms.RULES['cmp'] = mk_cmp


class Tab:
    """the pre-state of one table and the questions about its post-state"""

    def __init__(s, ht, T, B, p, ent, vals):
        s.ht, s.T, s.B, s.p, s.ent, s.vals = ht, T, B, p, ent, vals

    def chain(s, h):
        return atom('chain', single(s.B), h)

    def now(s, o, f):
        return o.st.norm(o.fld(s.T, s.ht.F, f))

    def eroot(s):
        return ('E', 'chain', single(s.B))

    def untouched(s, o):
        st = o.st
        return (not st.log.get(('P', single(s.B))) and not st.log.get(s.eroot()) and not st.freed.get(s.eroot())
                and not st.freed.get(('P', single(s.B))) and s.now(o, 'buckets') is st.norm(s.B) and s.now(o, 'prime') is st.norm(s.p))

    def cmp(s, a, b):
        return mk_cmp(a, b)

    # ---- the affected chains when the bucket array was kept
    def edits(s, o):
        """[(h, [segments])] for every chain the call wrote to"""
        st = o.st
        hs = []

        def note(h):
            h = st.norm(h)
            for g in hs:
                if g is h or o.need(eq(g, h)):
                    return
            hs.append(h)
        for en in st.log.get(('P', single(s.B)), ()):
            if en.binders or not isinstance(en.val, Lin):
                raise GiveUp('quantified bucket update')
            if en.guard is not True and not o.need(en.guard):
                continue
            note(mk_udiv(en.idx[-1], const(WORD)))
        N = s.ht.N
        for en in st.log.get(s.eroot(), ()):
            if en.binders:
                raise GiveUp('quantified node update')
            if en.guard is not True and not o.need(en.guard):
                continue
            off = en.idx[-1]
            if isconst(off) and off.c in s.ht.byoff and s.ht.byoff[off.c] != 'next':
                nm = s.ht.byoff[off.c]
                o.equal(en.val, app(nm, atom('chain', single(s.B), en.idx[0]), en.idx[1]), 'entries keep their contents', 'field %s of an existing entry is overwritten at %s' % (nm, en.loc))
                continue
            if isconst(off) and off.c == N['next'][0]:
                note(en.idx[0])
            elif isconst(off):
                continue
            else:
                raise GiveUp('node update at unknown offset')
        res = []
        for h in hs:
            head = o.e.read(st, add(s.B, mul(h, WORD)), 8, ir.PTR)
            res.append((h, join(o, walk(o, head, N['next'][0]))))
        return res

    # ---- a new bucket array: who was pushed where
    def pushes(s, o, B2, p2):
        """the content of a bucket array built by this call:
        [(binders, guard, index, node pointer)], having checked that it was
        emptied first and that each push keeps what the bucket already held"""
        st, e = o.st, o.e
        root, bidx = e.root_of(st, B2)
        if root[0] != 'A':
            raise GiveUp('bucket array %s' % B2)
        ents = [en for en in st.log.get(root, ()) if same_inst(o, en.idx[:-1], bidx[:-1])]
        ver = ZERO
        init = False
        out = []
        N = s.ht.N
        for en in ents:
            if isinstance(en.size, Lin) or isinstance(en.val, tuple):
                if isinstance(en.val, tuple) and en.val[0] == 'fill' and en.val[1] is ZERO and not en.binders:
                    if st.decide(le(mul(p2, WORD), en.size if isinstance(en.size, Lin) else const(en.size))) is True and en.idx[-1] is ZERO:
                        init = True
                        continue
                raise GiveUp('bulk write to the bucket array')
            cnt = count_of(en.binders)
            if not out and en.val is ZERO and en.guard is True:
                if len(en.binders) == 1:
                    r = range_of(mk_udiv(en.idx[-1], const(WORD)), en.binders)
                    if r is not None:
                        o.must(conj(le(r[0], ZERO), le(p2, r[1])), 'new buckets start empty', 'only buckets %s..%s of %s are cleared' % (r[0], r[1], p2))
                        init = True
                        ver = add(ver, cnt)
                        continue
                raise GiveUp('bucket initialisation')
            h = mk_udiv(en.idx[-1], const(WORD))
            # inside the binders
            st2 = under(st, en)
            if st2 is None:
                continue
            o2 = Out(o.ck, o.lab, o.name, e, st2)
            x = st2.norm(en.val)
            if x is ZERO:
                raise GiveUp('bucket reset')
            nx = st2.norm(e.read(st2, add(x, const(N['next'][0])), 8, ir.PTR))
            a = single(nx)
            if a is not None and a.fn == 'elem' and a.args[0].fn == 'schain':
                S = a.args[0]
                want = add(ver, position(en.binders))
                ok = (S.args[0] == root[1] and st2.decide(eq(S.args[1], bidx[0])) is True and st2.decide(eq(S.args[3], h)) is True and a.args[1] is ZERO)
                if not ok:
                    o.must(conj(S.args[0] == root[1], eq(S.args[3], h)), 'a push keeps the rest of the bucket', 'the new node of bucket %s is linked in front of bucket %s (%s)' % (h, S.args[3], en.loc))
                elif st2.decide(eq(S.args[2], want)) is not True:
                    raise GiveUp('version of the bucket head %s, expected %s' % (S.args[2], want))
                else:
                    o.good('a push keeps the rest of the bucket')
            elif nx is ZERO:
                # fine only when the bucket is known to be empty
                S = atom('schain', root[1], st2.norm(bidx[0]), st2.norm(add(ver, position(en.binders))), st2.norm(h))
                if st2.decide(eq(app('n', S))) is True:
                    o.good('a push keeps the rest of the bucket')
                    out.append((en.binders, en.guard, h, x, st2))
                    ver = add(ver, cnt)
                    continue
                o.fail('a push keeps the rest of the bucket', 'the node stored into bucket %s has no successor: earlier entries of the bucket are lost (%s)' % (h, en.loc))
            else:
                raise GiveUp('successor %s' % nx)
            out.append((en.binders, en.guard, h, x, st2))
            ver = add(ver, cnt)
        if not init:
            o.fail('new buckets start empty', 'the new bucket array is never cleared')
        return out

    def node_fields(s, o, push):
        binders, guard, h, x, st2 = push
        N = s.ht.N
        r = {}
        for f in s.ht.payload + ['hash']:
            r[f] = st2.norm(o.e.read(st2, add(x, const(N[f][0])), 8, ir.PTR if f != 'hash' else ir.INTS[64]))
        return r

    def check_moved(s, o, pushes, p2):
        """every old entry is in the new array exactly once, unchanged and in
        the bucket of its hash; returns the pushes that are not moved entries"""
        moved, new = [], []
        for p in pushes:
            f = s.node_fields(o, p)
            a = single(f[s.ht.key])
            if a is not None and a.fn == s.ht.key and a.args[0].fn == 'chain' and a.args[0].args[0] is single(s.B):
                moved.append((p, f, a))
            else:
                new.append((p, f))
        if len(moved) != 1:
            if not moved and o.st.decide(eq(s.ent)) is True:
                return new
            if not moved:
                o.must(eq(s.ent), 'growth keeps every entry', 'no existing entry is carried over into the new bucket array')
                return new
            s.counted(o, moved)
            for (binders, guard, h, x, st2), f, a in moved:
                s.moved_one(o, f, a, h, st2, p2)
            return new
        (binders, guard, h, x, st2), f, a = moved[0]
        S, y = a.args
        rx = range_of(S.args[1], binders)
        ry = range_of(y, binders)
        if rx is None or ry is None:
            # a single entry out of all
            if not binders:
                o.must(eq(s.ent, ONE), 'growth keeps every entry', 'only one existing entry is carried over')
            else:
                raise GiveUp('moved entries %s' % a)
        else:
            o.must(conj(le(rx[0], ZERO), le(s.p, rx[1])), 'growth keeps every entry', 'only the buckets %s..%s of %s are carried over' % (rx[0], rx[1], s.p))
            n = app('n', S)
            q = Out(o.ck, o.lab, o.name, o.e, st2)
            lo, hi = ry
            r = st2.decide(conj(le(lo, ZERO), le(n, hi)))
            if r is True:
                o.good('growth keeps every entry')
            elif weak((lo, hi)):
                o.undec('growth keeps every entry', 'entries %s..%s' % ry)
            elif r is False or witness(st2, disj(lt(ZERO, lo), lt(hi, n))):
                o.fail('growth keeps every entry', 'only the entries %s..%s of the %s of a bucket are carried over' % (lo, hi, n))
            else:
                o.undec('growth keeps every entry', 'entries %s..%s of %s' % (lo, hi, n))
            if guard is not True and st2.decide(guard) is not True:
                if witness(st2, neg(guard)) and not weak(guard):
                    o.fail('growth keeps every entry', 'entries are carried over only if %s' % showc(guard))
                else:
                    o.undec('growth keeps every entry', 'guard %s' % showc(guard))
        s.moved_one(o, f, a, h, st2, p2)
        return new

    def counted(s, o, moved):
        """several groups: of a table with a known number of entries each one moves exactly once"""
        st = o.st
        nums = lambda lo, hi: range(lo.c, hi.c) if not lo.t and not hi.t and hi.c - lo.c < 9 else None
        p = nums(ZERO, st.norm(s.p))
        sizes = {k: nums(ZERO, st.norm(app('n', s.chain(const(k))))) for k in p or ()}
        if not p or None in sizes.values():
            raise GiveUp('%d groups of moved entries' % len(moved))
        seen = []
        for (binders, guard, h, x, st2), f, a in moved:
            rx, ry = (range_of(z, binders) or ((z, add(z, ONE)) if not any(b[0] in deep_atoms(z) for b in binders) else None) for z in (a.args[0].args[1], a.args[1]))
            if rx is None or ry is None or guard is not True and st2.decide(guard) is not True:
                raise GiveUp('moved entries %s' % a)
            xs, ys = (nums(*map(st2.norm, r)) for r in (rx, ry))
            if xs is None or ys is None:
                raise GiveUp('moved entries %s' % a)
            seen += [(i, j) for i in xs for j in ys]
        want = [(i, j) for i in p for j in sizes[i]]
        nm = 'growth keeps every entry'
        if sorted(seen) == want:
            o.good(nm)
        else:
            o.fail(nm, 'entries %s (bucket, position) are carried over, the table has %s' % (sorted(seen), want))

    def moved_one(s, o, f, a, h, st2, p2):
        S, y = a.args
        for nm in s.ht.payload + ['hash']:
            want = app(nm, S, y)
            if f[nm] is want:
                o.good('moved entries keep key, datum and hash')
            elif weak(f[nm]):
                o.undec('moved entries keep key, datum and hash', '%s' % f[nm])
            else:
                o.fail('moved entries keep key, datum and hash', 'field %s of a moved entry becomes %s' % (nm, f[nm]))
        s.in_bucket(o, st2, h, app('hash', S, y), p2)

    def in_bucket(s, o, st2, h, hv, p2):
        want = mk_urem(hv, p2)
        hh = st2.norm(h)
        w = st2.norm(want)
        if hh is w or st2.decide(eq(hh, w)) is True:
            o.good('an entry sits in the bucket its lookup will search')
        elif weak(hh) and not single(hh):
            o.undec('an entry sits in the bucket its lookup will search', '%s vs %s' % (hh, w))
        else:
            o.fail('an entry sits in the bucket its lookup will search', 'stored in bucket %s, looked up in bucket %s' % (hh, w))

    def all_unequal(s, o, S, k, nm, lo=ZERO):
        """on this path no element of the chain S equals k"""
        st = o.st
        j = atom('sym', 'w!%d' % S.id)
        f = st.facts.assume(le(lo, j.lin))
        f = f and f.assume(lt(j.lin, app('n', S)))
        if f is None:
            o.good(nm)
            return
        key = app(s.ht.key, S, j.lin, ptr=True)
        c = s.cmp(key, k)
        f = f.assume(eq(c))
        if f is not None:
            f = f.assume(eq(app('hash', S, j.lin, rng=(0, None)), app('hashof', k)))
        if f is None:
            o.good(nm)
            return
        # is there really such an element?
        st2 = st.copy()
        st2.facts = f
        r = small_model(st2, app('n', S), j.lin)
        if r is True:
            o.fail(nm, 'an element of the chain is skipped: entry %s of %s is never compared with the key' % (r_desc(st2, j.lin, S), S))
        else:
            o.undec(nm, 'cannot show that every element of the chain is compared')


def r_desc(st, j, S):
    return st.norm(j)


def small_model(st, n, j):
    """is the state consistent with a short chain and a concrete position?  Tries lengths up to 3"""
    for nn in (1, 2, 3):
        f = st.facts.assume(eq(n, const(nn)))
        if f is None:
            continue
        for jj in range(nn):
            g = f.assume(eq(j, const(jj)))
            if g is None:
                continue
            # every remaining loop counter gets a value too
            ok = ground(g, 0)
            if ok:
                return True
    return False


def ground(f, depth):
    """assign the loop counters; True if some assignment stays consistent"""
    ms = set()
    for l in list(f.les) + list(f.nes) + list(f.eqs):
        for a, _ in l.t:
            for b in deep_atoms(a):
                if b.fn == 'sym' and str(b.args[0]).startswith('m!'):
                    ms.add(b)
    for v, lo, hi, c in f.foralls:
        for b in deep_atoms(hi) | deep_atoms(lo):
            if b.fn == 'sym' and str(b.args[0]).startswith('m!'):
                ms.add(b)
    ms = [m for m in ms if m not in f.sub]
    if not ms or depth > 4:
        return expand_foralls(f) is not None
    m = ms[0]
    for v in (0, 1, 2, 3, 4, 8)[:4 if depth > 1 else 6]:
        g = f.assume(eq(m.lin, const(v)))
        if g is not None and ground(g, depth + 1):
            return True
    return False


def expand_foralls(f):
    for v, lo, hi, c in f.foralls:
        lo2, hi2 = f.norm(lo), f.norm(hi)
        if isconst(lo2) and isconst(hi2):
            for k in range(lo2.c, min(hi2.c, lo2.c + 8)):
                f = f.assume(subst(c, {v: const(k)}))
                if f is None:
                    return None
    return f


def witness(st, c):
    return st.facts.assume(c) is not None


def same_inst(o, a, b):
    for x, y in zip(a, b):
        x, y = o.st.norm(x), o.st.norm(y)
        if x is y:
            continue
        r = o.st.decide(eq(x, y))
        if r is None:
            raise GiveUp('instance')
        if r is False:
            return False
    return True


def count_of(binders):
    """number of instances of a quantified entry"""
    if not binders:
        return ONE
    v, lo, hi = binders[0]
    inner = count_of(binders[1:])
    if lo is not ZERO:
        inner = subst(inner, {v: add(v.lin, lo)})
        hi = sub(hi, lo)
    if not any(v is d for d in deep_atoms(inner)):
        if isconst(inner):
            return mul(hi, inner.c)
    return psum(v, inner, hi)


def position(binders):
    """how many instances precede the instance at the binder variables"""
    if not binders:
        return ZERO
    v, lo, hi = binders[0]
    inner = count_of(binders[1:])
    r = psum(v, subst(inner, {v: add(v.lin, lo)}) if lo is not ZERO else inner, sub(v.lin, lo)) if any(v is d for d in deep_atoms(inner)) else (mul(sub(v.lin, lo), inner.c) if isconst(inner) else psum(v, inner, sub(v.lin, lo)))
    return add(r, position(binders[1:]))


def under(st, en):
    """a copy of the state in which the binders of en range over their intervals"""
    f = st.facts
    for v, lo, hi in en.binders:
        f = f.assume(le(lo, v.lin))
        f = f and f.assume(lt(v.lin, hi))
        if f is None:
            return None
    if en.guard is not True:
        f = f.assume(en.guard)
        if f is None:
            return None
    n = st.copy()
    n.facts = f
    return n


def range_of(x, binders):
    """[lo,hi) that x runs over (each value once) as its binder does; None if not of that form"""
    for v, lo, hi in binders:
        k = dict(x.t).get(v)
        if k in (1, -1):
            rest = sub(x, mul(v.lin, k))
            if v in deep_atoms(rest):
                return None
            if k == 1:
                return add(lo, rest), add(hi, rest)
            return add(sub(rest, hi), ONE), add(sub(rest, lo), ONE)
    return None
