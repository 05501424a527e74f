"""C23: bit operations touch exactly the named bit."""
from spec import *

P = sym('flags', ptr=True)


def run(ck):
    bits = [atom('bit', 'word', 0, i, rng=(0, 1)) for i in range(64)]
    W = E.from_bits(list(bits))

    def start():
        e = ck.engine()
        e.check_bounds = True
        e.unroll = 66
        st = e.new_state()
        st.facts = st.facts.assume(ne(P))
        e.extents[('P', single(P))] = const(8)
        e.regions[('P', single(P))] = lambda s2, r, ix, sz, ty: W if isconst(ix[-1]) and ix[-1].c == 0 and sz == 8 else None
        return e, st

    def word(o):
        v = o.e.read(o.st, P, 8, ir.INTS[64])
        return E.as_bits(o.st.norm(v), 64) if isinstance(v, Lin) else None

    def only_word(o):
        nm = 'nothing but the word is written'
        bad = [r for r, l in o.st.log.items() if l and r[0] not in ('SZ', 'A') and r != ('P', single(P))]
        (o.fail(nm, '%s is written' % (bad[0],)) if bad else o.good(nm))

    M = (1 << 64) - 1
    VALS = [0, M, M // 3, M // 3 * 2] + [1 << i for i in range(64)] + [M ^ 1 << i for i in range(64)]

    def refute(o, term, want, mod):
        """a word for which the derived term differs from what is required, on this path"""
        for w in VALS:
            ev = lambda x: w >> x.args[2] & 1 if x.fn == 'bit' and x.args[0] == 'word' else 1 - ev(single(x.args[1])) if x.fn == 'bit' else None
            if not all(E.condval(c, ev) is True for c in o.st.path):
                continue
            t = E.termval(term, ev)
            if t is not None and t % mod != want(w) % mod:
                return 'for the word %#x the result is %#x' % (w, t % mod)
        return None

    def judge_word(o, b, val, what):
        w = word(o)
        if w is None:
            v = o.e.read(o.st, P, 8, ir.INTS[64])
            if isinstance(v, Lin):
                r = refute(o, o.st.norm(v), lambda x: x if b is None else x | 1 << b if val else x & ~(1 << b), 1 << 64)
                if r:
                    return o.fail('%s changes exactly its bit' % what, r + ' (bit %s)' % b)
            return o.undec('%s changes exactly its bit' % what, 'the word is not interpreted')
        for i in range(64):
            want = val if i == b else bits[i]
            if isinstance(want, Atom):
                q = o.st.norm(want.lin)
                want = single(q) if not isconst(q) else q.c
            if isinstance(w[i], Atom) == isinstance(want, Atom) and w[i] == want:
                o.good('%s changes exactly its bit' % what)
            else:
                o.fail('%s changes exactly its bit' % what, 'for bit %s, bit %d of the word becomes %s, expected %s' % (b, i, w[i], want))

    for b in range(64):
        for fn, val in (('bit_set', 1), ('bit_clr', 0)):
            e, st = start()

            def post(o, b=b, val=val, fn=fn):
                judge_word(o, b, val, fn)
                only_word(o)
            ck.run(fn, e, st, [P, const(b)], post, label='bit %d' % b)
        e, st = start()

        def post(o, b=b):
            nm = 'the test is true exactly when the bit is set'
            v = o.st.norm(o.ret)
            for x in (0, 1):
                s2 = o.st.facts.assume(eq(bits[b].lin, const(x)))
                if s2 is None:
                    continue        # the other way of the bit
                r = s2.decide(ne(v))
                if r is None:
                    vb = E.as_bits(v, 64)
                    if vb is not None:
                        on = {z for z in vb if isinstance(z, Atom)}
                        r = True if any(z == 1 and not isinstance(z, Atom) for z in vb) else False if not on else (x == 1) if on == {bits[b]} else 'other'
                if r == 'other':
                    o.fail(nm, 'for bit %d the result is %s' % (b, v))
                elif r is None:
                    c = ne(v)
                    z = refute(o, v if isinstance(c, bool) else app('b2i', c), lambda w: w >> b & 1, 1 << 32)
                    if z:
                        o.fail(nm, z + ' (bit %d)' % b)
                        continue
                    o.undec(nm, 'result %s' % v)
                elif r == (x == 1):
                    o.good(nm)
                else:
                    o.fail(nm, 'bit %d is %d and the result is %s' % (b, x, v))
            judge_word(o, None, None, 'testing')
            only_word(o)
        ck.run('bit_tst', e, st, [P, const(b)], post, label='bit %d' % b)
    e, st = start()

    def post(o):
        nm = 'the count is the number of set bits'
        v = o.st.norm(o.ret)
        want = ZERO
        for x in bits:
            want = add(want, x.lin)
        if v is want:
            o.good(nm)
        else:
            z = refute(o, v, lambda w: bin(w).count('1'), 1 << 32)
            if z:
                o.fail(nm, z)
            else:
                o.undec(nm, 'the result is not interpreted: %s' % str(v)[:100])
        judge_word(o, None, None, 'counting')
        only_word(o)
    ck.run('bit_cnt', e, st, [P], post)
    return dict(minimum=100)
