"""C22: number encodings are exact inverses within their range."""
import tables as T
from spec import *

ALPHA = {64: b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/', 26: b'abcdefghijklmnopqrstuvwxyz'}
DIGITS = {64: 6, 26: 7}
TXT = sym('text', ptr=True)
MSG = 'err_internal'


def run(ck):
    def engine():
        e = ck.engine()
        e.use_global_init = True
        e.check_bounds = True
        e.pathwise = 40
        e.budget = 1500000
        T.install(e)
        T.no_wrap(e)

        def slen(st, p, ins):
            for i in range(64):
                v = e.read(st, add(p, const(i)), 1, ir.INTS[8]) if ins is None else at(st, add(p, const(i)), ins)
                if not isinstance(v, Lin):
                    raise GiveUp('length of a text')
                v = st.norm(v)
                d = is0(st, v)
                if d:
                    return const(i)
            raise GiveUp('length of a text')

        def at(st, p, ins):
            e.access(st, p, 1, ins, False)
            return e.read(st, p, 1, ir.INTS[8])
        e.strlen_hook = slen
        return e

    def is0(st, v):
        if isconst(v):
            return v.c == 0
        a = single(v)
        if a is not None and a.fn == 'tabl' and 0 not in T.TABS[a.args[0]]:
            return False
        c = st.norm(eq(v))
        d = st.decide(c)
        if d is None:
            raise NeedSplit(c)
        return d

    def digit_atom(base, name, i, hi=None):
        return atom('sym', '%s%d' % (name, i), rng=(0, (hi or base) - 1)).lin

    def number(base, name):
        """every number of the range, by its digits"""
        if base == 64:
            return E.from_bits([atom('bit', name, 0, i, rng=(0, 1)) for i in range(32)])
        v = ZERO
        for i in range(DIGITS[base]):
            v = add(v, digit_atom(base, name, i), base ** i)
        return v

    def letter(base, d):
        return T.put(list(ALPHA[base]), d)

    def value_of(base, ch):
        """digit that a character stands for, or None when some character is outside the alphabet"""
        r = T.mapped(ch, lambda v: ALPHA[base].index(v % 256) if v % 256 in ALPHA[base] else None)
        if r is None or r[0] is None:
            return None, r is not None or any(v % 256 not in ALPHA[base] for v in values(ch))
        return r[0], False

    def values(ch):
        if isconst(ch):
            return [ch.c]
        if len(ch.t) == 1 and ch.t[0][0].fn == 'tabl':
            a, k = ch.t[0]
            return [k * v + ch.c for v in T.TABS[a.args[0]]]
        return []

    def clean(st):
        s2 = st.copy()
        s2.frames, s2.term, s2.path, s2.retval, s2.events, s2.errs = [], None, st.path, None, (), ()
        return s2

    def samples(base, *groups):
        """valuations of the digits of some numbers: for refuting, never for accepting"""
        top = 1 << 32 if base == 64 else 26 ** 7
        ns = [0, 1, base - 1, base, base + 1, base ** 2, base ** 3 + 5, base ** 4 - 1, base ** 5, 0x12345678 % top, (1 << 31) % top, (1 << 31) - 1, (1 << 32) - 1, top - 1, 1 << 32, (1 << 32) + 7, 3 * base ** 5 + 11]
        ns = [x for x in ns if x < top]
        out = []
        for k in range(len(ns) * (len(ns) if len(groups) > 1 else 1)):
            m = {}
            for j, g in enumerate(groups):
                x = ns[k // len(ns) ** j % len(ns)]
                for a, w, r in g:
                    m[a] = x // w % r
            out.append(m)
        return out

    def atoms_of(base, name):
        if base == 64:
            return [(atom('bit', name, 0, i), 1 << i, 2) for i in range(32)]
        return [(single(digit_atom(base, name, i)), base ** i, base) for i in range(DIGITS[base])]

    def must(o, c, nm, msg, vals):
        c = o.st.norm(c)
        if o.st.decide(c) is None and weak(c):
            w = T.witness(o, c, vals)
            if w is not None:
                return o.fail(nm, '%s, for the digits %s' % (msg, ', '.join('%s=%d' % x for x in w.items() if x[1]) or 'all zero'))
        return o.must(c, nm, msg)

    # ---------------------------------------------------------- encoding
    def check_text(o, base, p, val, vals):
        """the returned text is the shortest encoding of val"""
        chars = []
        for i in range(12):
            v = o.rd(add(p, const(i)), 1)
            if not isinstance(v, Lin):
                return o.undec('the text is understood', 'character %s' % (v,))
            v = o.st.norm(v)
            if any(a.fn in ('hv', 'undef') for a in deep_atoms(v)):
                return o.undec('the text is understood', 'character %s' % v)
            if is0(o.st, v):
                break
            chars.append(v)
        nm = 'the text has one to %d digits' % DIGITS[base]
        if not 1 <= len(chars) <= DIGITS[base]:
            return o.fail(nm, 'it has %d' % len(chars))
        o.good(nm)
        s = ZERO
        for i, c in enumerate(chars):
            d, out = value_of(base, c)
            nm = 'every character is a digit of the alphabet'
            if d is None:
                if not out:
                    # not understood as a whole: at least it must be right for some numbers
                    for env in vals:
                        ev = T.evaluator(o.e, env.get)
                        if not all(E.condval(x, ev) is True for x in o.st.path):
                            continue
                        cs = [E.termval(x, ev) for x in chars]
                        n = E.termval(val, ev)
                        if None in cs or n is None:
                            continue
                        w = 0
                        for x in cs:
                            w = w * base + ALPHA[base].index(x) if x in ALPHA[base] else 1 << 99
                        if w != n:
                            return o.fail('the digits, most significant first, denote the number', 'for %d the text is %r' % (n, bytes(x % 256 for x in cs)))
                (o.fail if out else o.undec)(nm, 'character %d is %s' % (i, c))
                return
            o.good(nm)
            if i == 0 and len(chars) > 1:
                o.must(ne(o.st.norm(d)), 'no leading zero digit', 'the first of %d digits may be zero' % len(chars))
            s = add(mul(s, base), d)
        must(o, eq(o.st.norm(s), o.st.norm(val)), 'the digits, most significant first, denote the number', 'they denote %s' % str(o.st.norm(s))[:120], vals)

    for base in (64, 26):
        enc, dec = 'b%d_encode' % base, 'b%d_decode' % base
        e = engine()
        st0 = e.new_state()
        v, u = number(base, 'v'), number(base, 'u')
        after = []

        def post(o, first=True):
            check_text(o, base, o.ret, v, samples(base, atoms_of(base, 'v')))
            after.append((o.st, o.ret))
        ck.run(enc, e, st0.copy(), [v], post, label='a number')
        first = list(after)
        # the text decodes to the number
        for k, (st, p) in enumerate(first):
            def post2(o):
                must(o, eq(o.ret, o.st.norm(v)), 'decoding an encoded number gives it back', 'gives %s' % str(o.ret)[:120], samples(base, atoms_of(base, 'v')))
            ck.run(dec, e, clean(st), [p], post2, label='an encoded number, case %d' % k)
        # another number was encoded before: nothing of it remains
        del after[:]
        for k, (st, p) in enumerate(first):
            def post3(o):
                check_text(o, base, o.ret, u, samples(base, atoms_of(base, 'u'), atoms_of(base, 'v')))
            ck.run(enc, e, clean(st), [u], post3, label='after another number, case %d' % k)

        # ------------------------------------------------------ decoding any text of digits
        for n in range(0, DIGITS[base] + 1):
            if base == 64:
                ds = [E.from_bits([atom('bit', 'd%d' % i, 0, j, rng=(0, 1)) for j in range(2 if i == 0 and n == 6 else 6)]) for i in range(n)]
            else:
                ds = [digit_atom(base, 'd', i) for i in range(n)]
            want = ZERO
            for d in ds:
                want = add(mul(want, base), d)
            da = [(a, k, a.rng[1] + 1) for a, k in want.t]
            vals = [x for x in samples(base, da)]
            for fn, nul in ((dec, True),) + (((dec + '_buf', False),) if base == 64 else ()):
                e = engine()

                def text(s2, root, idx, size, ty, n=n, ds=ds, nul=nul):
                    i = s2.norm(idx[-1])
                    if size != 1 or not isconst(i):
                        return None
                    if not 0 <= i.c < n + (1 if nul else 0):
                        s2.errs = s2.errs + (('overrun', 'base%d.c' % base, 'character %d of a text of %d is read' % (i.c, n), ''),)
                        raise E.Fault('overrun')
                    s2.extra['read'] = s2.extra.get('read', frozenset()) | {i.c}
                    return ZERO if i.c == n else letter(base, ds[i.c])
                e.regions[('P', single(TXT))] = text
                e.extents[('P', single(TXT))] = const(n + (1 if nul else 0))
                st = e.new_state()
                st.facts = st.facts.assume(le(const(4096), TXT))

                def post4(o, want=want, n=n):
                    must(o, eq(o.ret, o.st.norm(want)), 'a text of digits decodes to the number it denotes', 'gives %s' % str(o.ret)[:120], vals)
                    r = o.st.extra.get('read', frozenset())
                    nm = 'every character counts'
                    (o.good(nm) if set(range(n)) <= set(r) else o.fail(nm, 'only characters %s of %d are read' % (sorted(r), n)))
                ck.run(fn, e, st, [TXT] + ([] if nul else [const(n)]), post4, label='%d digits' % n)

        # ------------------------------------------------------ characters outside the alphabet
        for fn, nul in ((dec, True),) + (((dec + '_buf', False),) if base == 64 else ()):
            for where, n in ((0, 1), (0, 3), (1, 3), (2, 3)):
                for c in range(1 if nul else 0, 256):
                    e = engine()
                    z = ALPHA[base][1]
                    b = bytes(c if i == where else z for i in range(n))

                    def text(s2, root, idx, size, ty, n=n, b=b, nul=nul):
                        i = s2.norm(idx[-1])
                        if size != 1 or not isconst(i):
                            return None
                        if not 0 <= i.c < n + (1 if nul else 0):
                            s2.errs = s2.errs + (('overrun', 'base%d.c' % base, 'character %d of a text of %d is read' % (i.c, n), ''),)
                            raise E.Fault('overrun')
                        return ZERO if i.c == n else const((b[i.c] ^ 128) - 128)
                    e.regions[('P', single(TXT))] = text
                    e.extents[('P', single(TXT))] = const(n + (1 if nul else 0))
                    st = e.new_state()
                    st.facts = st.facts.assume(le(const(4096), TXT))
                    ok = c in ALPHA[base]
                    nm = 'a character outside the alphabet is fatal'

                    def post5(o, b=b, ok=ok):
                        if not ok:
                            return o.fail(nm, 'the text %r decodes to %s' % (b, o.ret))
                        w = 0
                        for x in b:
                            w = w * base + ALPHA[base].index(x)
                        o.must(eq(o.ret, const(w)), 'a text of digits decodes to the number it denotes', '%r gives %s, must be %d' % (b, o.ret, w))

                    def end(o, how, b=b, ok=ok):
                        if ok:
                            o.fail('a text of digits is accepted', '%r ends in %s' % (b, how))
                        elif how == MSG:
                            o.good(nm)
                        else:
                            o.fail(nm, '%r ends in %s, not in the fatal error' % (b, how))
                    ck.run(fn, e, st, [TXT] + ([] if nul else [const(n)]), post5, label='character %d of %d is %#04x' % (where, n, c), on_noreturn=end)
    ck.rule('a number is the sum of its digits (bits for base 64, base-26 digits for base 26), each free in its range: the functions are interpreted once for all values; look-ups in the constant tables are composed as functions of the digit')
    ck.rule('signed 32-bit arithmetic that does not fit is an error; a 32-bit shift drops what does not fit')
    ck.finish('static: abstract interpretation over numbers written as sums of free digits, with exact division, masking and composition of the constant tables', level='other', minimum=2000)
