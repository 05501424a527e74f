"""C31: soundex codes are four well-formed characters for every word."""
import product as PD
import tables as T
from spec import *

STR, RES = sym('string', ptr=True), sym('result', ptr=True)
CODES = dict(zip('ABCDEFGHIJKLMNOPQRSTUVWXYZ', '01230120022455012623010202'))
BITS = {'upper': 0, 'lower': 1, 'alpha': 2, 'digit': 3, 'xdigit': 4, 'space': 5, 'print': 6, 'graph': 7, 'blank': 8, 'cntrl': 9, 'punct': 10, 'alnum': 11}


def classes(c, latin):
    """character classes of byte c in the C locale, or in one with letters beyond ASCII"""
    ch = chr(c)
    if c >= 128:
        s = set()
        if latin and c >= 160:
            s |= {'print', 'graph'}
            if c >= 192 and c not in (215, 247):
                s |= {'alpha', 'alnum', 'upper' if c < 223 else 'lower'}
        return s
    s = set()
    for k, v in (('upper', 'A' <= ch <= 'Z'), ('lower', 'a' <= ch <= 'z'), ('digit', '0' <= ch <= '9'), ('space', ch in ' \t\n\v\f\r'), ('print', 32 <= c < 127),
                 ('graph', 32 < c < 127), ('blank', ch in ' \t'), ('cntrl', c < 32 or c == 127), ('xdigit', ch in '0123456789abcdefABCDEF')):
        if v:
            s.add(k)
    if s & {'upper', 'lower'}:
        s.add('alpha')
    if s & {'alpha', 'digit'}:
        s.add('alnum')
    if 'graph' in s and 'alnum' not in s:
        s.add('punct')
    return s


def upper(c, latin):
    return c - 32 if 'lower' in classes(c, latin) and (c < 128 or c not in (223, 255)) else c


def lower(c, latin):
    return c + 32 if 'upper' in classes(c, latin) else c


def letter(i):
    return app('letter', i, rng=(-128, 127))


class Spec:
    """the code of a prefix of the text"""

    def __init__(s, out='', prev=''):
        s.out, s.prev = out, prev

    def feed(s, c):
        ch = chr(c).upper() if c < 128 else ''
        if ch not in CODES or len(s.out) == 4:
            return s
        k = CODES[ch]
        if not s.out:
            return Spec(ch, k)
        return Spec(s.out + k if k != '0' and k != s.prev else s.out, k)

    def text(s):
        return (s.out + '000')[:4] if s.out else 'Z000'


def run(ck):
    def engine(latin, alphabet=range(-128, 128)):
        e = ck.engine()
        e.check_bounds = True
        e.pathwise = 60
        e.budget = 6000000
        T.install(e)
        seen = set()
        e.seen_keys = seen
        e.diverged, e.cut = 0, False

        def byte(st, i):
            """the i-th character, decided"""
            c = letter(i)
            lo, hi = 0, len(alphabet) - 1
            while lo < hi:
                m = (lo + hi) // 2
                k = le(c, const(alphabet[m]))
                d = st.decide(k)
                if d is None:
                    raise NeedSplit(k)
                if d:
                    hi = m
                else:
                    lo = m + 1
            return alphabet[lo]

        def text(st, root, idx, size, ty):
            o = st.norm(idx[-1])
            if size != 1:
                return None
            if not isconst(o):
                raise GiveUp('character at %s' % o)
            t = st.extra.get('text', ())
            if o.c < 0 or t and t[-1] == 0 and o.c >= len(t):
                st.errs = st.errs + (('overrun', 'text.c', 'a character outside the text is read (at %d)' % o.c, ''),)
                raise E.Fault('overrun')
            while len(t) <= o.c:
                if t and t[-1] == 0:
                    st.errs = st.errs + (('overrun', 'text.c', 'reads beyond the end of the text', ''),)
                    raise E.Fault('overrun')
                t += (byte(st, len(t)),)
                st.extra['text'] = t
            return const(t[o.c])
        e.regions[('P', single(STR))] = text
        M = e.models

        def plain(f):
            def m(en, st, ins, a):
                c = st.norm(a[0])
                if not isconst(c):
                    raise GiveUp('character class of %s' % c)
                return const(f(c.c))
            return m
        # a negative character is the byte it stands for, as in the tables of the C library
        for k in BITS:
            M['is' + k] = plain(lambda c, k=k: int(-128 <= c < 256 and c != -1 and k in classes(c % 256, latin)))
        M['isascii'] = plain(lambda c: int(0 <= c < 128))
        M['toascii'] = plain(lambda c: c & 127)
        M['toupper'] = plain(lambda c: upper(c % 256, latin) if -128 <= c < 256 and c != -1 else c)
        M['tolower'] = plain(lambda c: lower(c % 256, latin) if -128 <= c < 256 and c != -1 else c)
        for nm, size, f in (('__ctype_b_loc', 2, lambda c: sum((1 << b << 8) if b < 8 else (1 << b >> 8) for k, b in BITS.items() if k in classes(c, latin))),
                            ('__ctype_toupper_loc', 4, lambda c: upper(c, latin)), ('__ctype_tolower_loc', 4, lambda c: lower(c, latin))):
            P1, P2 = sym(nm, ptr=True), sym(nm + '.table', ptr=True)
            M[nm] = lambda en, st, ins, a, P1=P1: P1

            def at(st, root, idx, sz, ty, size=size, f=f):
                o = st.norm(idx[-1])
                if sz != size or not isconst(o) or o.c % size:
                    raise GiveUp('character class table at %s' % o)
                i = o.c // size
                if not -128 <= i < 256:
                    st.errs = st.errs + (('overrun', 'text.c', 'the class of %d is asked for' % i, ''),)
                    raise E.Fault('overrun')
                return const(f(i % 256))
            e.regions[('P', single(P1))] = lambda st, root, idx, sz, ty, P2=P2: P2
            e.regions[('P', single(P2))] = at

        def spec_of(st):
            s = Spec()
            for c in st.extra.get('text', ()):
                if c == 0:
                    break
                s = s.feed(c % 256)
            return s
        e.spec_of = spec_of

        def content(st, en, p, n):
            out = ''
            for i in range(n):
                try:
                    v = en.read(st, add(p, const(i)), 1, ir.INTS[8])
                except (NeedSplit, E.Unresolved):
                    out += '?'
                    continue
                v = st.norm(v) if isinstance(v, Lin) else None
                out += chr(v.c % 256) if v is not None and isconst(v) else '?'
            return out
        e.content = content

        def back(st, L):
            fr = st.frames[-1]
            s = spec_of(st)
            t = st.extra.get('text', ())

            def show(v, index):
                d = v if index and isconst(v) and v.c >= 0 else sub(v, STR)
                if isconst(d):
                    return 'text-%d' % (len(t) - d.c)
            vals = PD.snapshot(e, st, show)
            mem = []
            for root, l in sorted(st.log.items(), key=lambda x: str(x[0])):
                if not l or root[0] == 'SZ':
                    continue
                if root[0] == 'P' and root[1] is single(RES):
                    p, n = RES, 5
                elif root[0] == 'A' or root[0] == 'G':
                    p, n = None, 0
                    offs = sorted({x.idx[-1].c for x in l if isconst(x.idx[-1])})
                    if len(offs) != len({x.idx[-1] for x in l}):
                        return True
                    row = []
                    for o in offs:
                        for x in reversed(l):
                            if x.idx[-1].c == o:
                                row.append((o, str(x.val)))
                                break
                    got = tuple(row)
                    mem.append((str(root), relative(got, s)))
                    continue
                else:
                    return True
                got = content(st, e, p, n)
                want = (s.text() + '\0')
                # what has been written so far agrees with the rules: only that matters
                mem.append((str(root), 'as required' if got[:len(s.out)] == s.out and set(got[len(s.out):]) <= set('0\0Z?') and len(s.out) else got, got[len(s.out):]))
            key = repr((fr.f.key, L.header, len(s.out), s.prev, s.out[-1:] == s.prev, vals, mem))
            if key in seen:
                return False
            seen.add(key)
            if any(m[1] != 'as required' and (s.out or set(m[1]) - set('0\0Z?')) for m in mem if m[0].startswith("('P'")):
                e.diverged += 1
                if e.diverged > 60:
                    e.cut = True        # enough to judge what becomes of it
                    return False
            if len(seen) > 4000:
                raise GiveUp('more than 4000 states')
            return True
        e.backhook = back

        def relative(row, s):
            r = []
            for o, v in row:
                r.append((o, 'letter' if s.out and v == str(ord(s.out[0])) and o == row[0][0] else v))
            return tuple(r)

        return e

    def text_of(st):
        return bytes(c % 256 for c in st.extra.get('text', ()))

    def judge(o, p):
        s = o.e.spec_of(o.st)
        t = text_of(o.st)
        nm = 'the whole word counts'
        if not (t and t[-1] == 0) and len(s.out) < 4:
            return o.fail(nm, 'returns after %r, although more letters may follow' % t)
        o.good(nm)
        got = o.e.content(o.st, o.e, p, 5)
        nm = 'the code is that of the rules'
        if '?' in got:
            v = [o.e.read(o.st, add(p, const(i)), 1, ir.INTS[8]) for i in range(5)]
            return (o.fail if all(isinstance(x, Lin) and (isconst(o.st.norm(x)) or single(o.st.norm(x)) is not None and single(o.st.norm(x)).fn in ('letter', 'gmem', 'old', 'undef')) for x in v) else o.undec)(nm, 'for %r the result is left as %s' % (t, v))
        if got == s.text() + '\0':
            o.good(nm)
        else:
            o.fail(nm, 'for the text %r the code is %r, must be %r' % (t, got, s.text() + '\0'))

    total = {}
    for latin in (False, True):
        lab = 'letters beyond ASCII' if latin else 'C locale'
        e = engine(latin, sorted(list(range(-128, 0)) + [0, 45, 66, 97, 98, 108]) if latin else range(-128, 128))
        st = e.new_state()
        st.facts = st.facts.assume(le(const(4096), STR)).assume(le(const(4096), RES))
        e.extents[('P', single(RES))] = const(5)
        e.regions[('P', single(RES))] = lambda s2, r, ix, sz, ty: app('old', ix[-1], rng=(-128, 127)) if sz == 1 else None
        ck.run('txt_soundex2', e, st, [STR, RES], lambda o: judge(o, RES), label=lab)
        total['txt_soundex2, ' + lab] = len(e.seen_keys)
        if e.cut:
            ck.undecided('txt_soundex2', 'the code is that of the rules', 'not all ways in which the result is put together are followed')
    e = engine(False, [-56, 0, 45, 65, 66, 98, 99, 108, 116])
    st = e.new_state()
    st.facts = st.facts.assume(le(const(4096), STR))
    ck.run('txt_soundex', e, st, [STR], lambda o: judge(o, o.ret), label='static buffer')
    total['txt_soundex'] = len(e.seen_keys)
    ck.extra['states'] = total
    ck.rule('every text over all 256 bytes: the product of the routine and the documented rules is explored to a fixpoint; the result may hold anything before')
    ck.finish('static: the loop of txt_soundex2 is explored together with an automaton of the documented rules until no new pair of states appears (product construction), over every byte value (with letters beyond ASCII: the bytes above 127 and some others) and in two character-class tables', level='other', minimum=100)
