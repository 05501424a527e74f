"""C37: the key functions that come with the tables agree with each other."""
import text as X
from spec import *

A, B = sym('key1', ptr=True), sym('key2', ptr=True)
LENGTHS = {'quick': list(range(18)) + [31, 32, 33, 64, 255], 'thorough': list(range(70)) + [127, 128, 255, 256, 1023]}


def leaves(x, leaf, acc=None, seen=None):
    """the atoms a term is made of, down to those that are leaves"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(x, Lin):
        for a, _ in x.t:
            leaves(a, leaf, acc, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return acc
        seen.add(x)
        sub = [y for y in x.args if isinstance(y, (Lin, Atom, tuple))]
        if leaf(x) or x.fn in ('sym', 'hv', 'gmem', 'undef', 'fresh', 'alloc', 'old') or not sub:
            acc.add(x)
        else:
            for y in sub:
                leaves(y, leaf, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            leaves(y, leaf, acc, seen)
    return acc


def bytewise(e):
    """a part of a stored word is a function of that word"""
    def part(st, root, idx, size, ty):
        for w in reversed(st.log.get(root, ())):
            if w.binders or w.guard is not True or not isinstance(w.size, int) or not isinstance(w.val, Lin):
                break
            d = st.norm(sub(idx[-1], w.idx[-1])) if len(idx) == len(w.idx) else None
            if d is None or not isconst(d):
                break
            if d.c >= w.size or d.c + size <= 0:
                continue
            if 0 <= d.c and d.c + size <= w.size:
                if isconst(w.val):
                    v = w.val.c >> 8 * d.c & (1 << 8 * size) - 1
                    return const(v - (1 << 8 * size) if v >> 8 * size - 1 else v)
                return app('part', w.val, const(d.c), const(size), rng=(-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1))
            break
        return type(e).unresolved(e, st, root, idx, size, ty)
    e.unresolved = part


def written(o):
    return [r for r, l in o.st.log.items() if l and r[0] not in ('SZ', 'A')]


def run(ck):
    def start():
        e = ck.engine()
        e.check_bounds = True
        e.unroll = 1100
        bytewise(e)
        st = e.new_state()
        return e, st

    # ---- hash values
    def depends(o, own, what):
        """the result and the way to it are made of what the key is, and of nothing else"""
        nm = 'equal keys have equal hash values'
        leaf = lambda a: a.fn == 'char' or a is single(A)
        ls = leaves(o.ret, leaf)
        for c in o.st.path:
            leaves(c, leaf, ls)
        wrong = [a for a in ls if not own(a)]
        bad = [a for a in wrong if a is single(A) or a.fn in ('char', 'undef', 'alloc')]
        mut = [a for a in wrong if a.fn == 'gmem' or a.fn == 'old']
        if bad:
            o.fail(nm, 'the hash value of %s depends on %s' % (what, bad[0]))
        elif wrong and written(o) and mut:
            o.fail(nm, 'the hash value of %s depends on %s, which is changed' % (what, mut[0]))
        elif wrong:
            o.undec(nm, 'the hash value depends on %s' % (wrong[0],))
        else:
            o.good(nm)
        nm = 'hashing changes nothing'
        w = written(o)
        (o.fail(nm, '%s is written' % (w[0],)) if w else o.good(nm))

    for n in LENGTHS['thorough' if ck.tier == 'thorough' else 'quick']:
        e, st = start()
        st.facts = st.facts.assume(le(const(4096), A))
        cs = [app('char', i, rng=(-128, 127)) for i in range(n)] + [ZERO]
        for c in cs[:-1]:
            st.facts = st.facts.assume(ne(c))
        st.facts = st.facts.assume(eq(app('strlen', single(A)), const(n))) or st.facts
        e.extents[('P', single(A))] = const(n + 1)

        def chars(s2, root, ix, sz, ty, cs=cs):
            o = ix[-1]
            if isconst(o) and not 0 <= o.c <= len(cs) - sz:
                s2.errs = s2.errs + (('bounds', 'hash.c', 'reads the character at %d of a text of %d characters' % (o.c, len(cs) - 1), ''),)
                raise E.Fault('bounds')
            return cs[o.c] if isconst(o) and sz == 1 else None
        e.regions[('P', single(A))] = chars
        ck.run('hsh_string_hash', e, st, [A], lambda o: depends(o, lambda a: a.fn == 'char', 'a string'), label='%d characters' % n)

    e, st = start()

    def deref(s2, root, ix, sz, ty):
        s2.errs = s2.errs + (('reads through a pointer key', 'hash.c', 'the memory a pointer key designates is read', ''),)
        raise E.Fault('deref')
    e.regions[('P', single(A))] = deref
    ck.run('hsh_pointer_hash', e, st, [A], lambda o: depends(o, lambda a: a is single(A), 'a pointer'))

    # ---- comparison of pointers
    SIGN = {0: 'zero', -1: 'negative', 1: 'positive'}
    nm0, nm1 = 'zero exactly for equal keys', 'exchanged keys compare the other way round'

    def judge_sign(o, want, what):
        v = o.ret
        c = {0: eq(v), 1: lt(ZERO, v), -1: lt(v, ZERO)}[want]
        r = o.st.decide(c)
        if r is True:
            o.good(nm0)
            return
        if o.st.decide(eq(v)) is (want != 0):
            return o.fail(nm0, 'for %s the result is %s' % (what, v))
        if r is False:
            return o.fail(nm1, 'for %s the result is %s, must be %s' % (what, v, SIGN[want]))
        o.undec(nm0, 'for %s the result is %s' % (what, v))

    signs = {}
    PTRS = [0, 8, 9, 4096, (1 << 31) + 8, (1 << 32) + 8, (1 << 32) + 9, (1 << 47) - 16, (1 << 47) + 8, 3 << 46]
    for x in PTRS:
        for y in PTRS:
            e, st = start()

            def post(o, x=x, y=y):
                v = o.ret
                what = 'the keys %#x and %#x' % (x, y)
                if not isconst(v):
                    return o.undec(nm0, '%s gives %s' % (what, v))
                if (v.c == 0) != (x == y):
                    return o.fail(nm0, '%s compare as %d' % (what, v.c))
                o.good(nm0)
                signs[x, y] = (v.c > 0) - (v.c < 0)
                if (y, x) in signs:
                    if signs[y, x] == -signs[x, y]:
                        o.good(nm1)
                    else:
                        o.fail(nm1, '%s compare as %d both ways round' % (what, signs[x, y]))
            ck.run('hsh_pointer_compare', e, st, [const(x), const(y)], post, label='%#x, %#x' % (x, y))
    for rel, want in ((eq(sub(A, B)), 'same'), (lt(A, B), 'less'), (lt(B, A), 'greater')):
        e, st = start()
        st.facts = st.facts.assume(rel)
        for P in (A, B):
            e.regions[('P', single(P))] = deref

        def post(o, want=want):
            z = o.st.decide(eq(o.ret))
            if z is None:
                return o.undec(nm0, 'result %s' % o.ret)
            (o.good if z == (want == 'same') else lambda n: o.fail(n, 'for %s keys the result is %s' % ('equal' if want == 'same' else 'different', o.ret)))(nm0)
        ck.run('hsh_pointer_compare', e, st, [A, B], post, label=want)

    # ---- comparison of strings
    def others(e):
        """further comparisons, of texts that are known"""
        def model(name, f):
            old = e.models.get(name)

            def m(en, st, ins, a):
                for p in a[:2]:
                    en.access(st, p, 1, ins, False)
                x, y = X.concrete(en, st, a[0]), X.concrete(en, st, a[1])
                n = st.norm(a[2]) if len(a) > 2 else None
                if x is None or y is None or n is not None and not isconst(n):
                    return old(en, st, ins, a) if old else app('pure', name, *[st.norm(q) for q in a], rng=(-(1 << 31), (1 << 31) - 1))
                x, y = f(x + b'\0', y + b'\0', n.c if n is not None else None)
                return const((x > y) - (x < y))
            e.models[name] = m
        model('strncmp', lambda x, y, n: (x[:n], y[:n]))
        model('strcasecmp', lambda x, y, n: (x.lower(), y.lower()))
        model('strncasecmp', lambda x, y, n: (x[:n].lower(), y[:n].lower()))

    e, st = start()
    X.install(e)
    st.facts = st.facts.assume(le(const(4096), A)).assume(le(const(4096), B))

    def post(o):
        t = o.ret.t
        a = t[0][0] if len(t) == 1 and not o.ret.c else None
        if a is not None and (a.fn == 'pure' and a.args[0] == 'strcmp' and set(a.args[1:]) == {A, B} or a.fn == 'textcmp' and set(a.args) == {A, B}):
            o.good(nm0)
        elif o.ret is ZERO and o.st.decide(eq(sub(A, B))) is True:
            o.good(nm0)         # the very same string
        elif a is not None and a.fn == 'pure' and a.args[0] in ('strcasecmp', 'strcoll') and set(a.args[1:3]) == {A, B}:
            o.fail(nm0, '%s takes different strings for the same' % a.args[0])
        elif a is not None and a.fn == 'pure' and a.args[0] in ('strncmp', 'strncasecmp') and set(a.args[1:3]) == {A, B} and isconst(a.args[3]):
            o.fail(nm0, 'only the first %s characters are compared' % a.args[3])
        else:
            o.undec(nm0, 'result %s' % o.ret)
    others(e)
    ck.run('hsh_string_compare', e, st, [A, B], post, label='any strings')
    TEXTS = [b'', b'a', b'b', b'A', b'ab', b'abcdefgh', b'abcdefgi', b'abcdefgh1', b'\x80', b'\x7f', b'\xff', b'a\xff', b'x' * 300, b'x' * 299 + b'y']
    ssign = {}
    for i, x in enumerate(TEXTS):
        for j, y in enumerate(TEXTS):
            e, st = start()
            X.install(e)
            others(e)
            p, q = literal(e, st, 'text1', x), literal(e, st, 'text2', y)
            st.facts = st.facts.assume(ne(sub(p, q))) or st.facts

            def post(o, x=x, y=y, i=i, j=j):
                v = o.ret
                what = 'the strings %r and %r' % (x[:12], y[:12])
                if not isconst(v):
                    return o.undec(nm0, '%s give %s' % (what, v))
                if (v.c == 0) != (x == y):
                    return o.fail(nm0, '%s compare as %d' % (what, v.c))
                o.good(nm0)
                ssign[i, j] = (v.c > 0) - (v.c < 0)
                if (j, i) in ssign:
                    (o.good if ssign[j, i] == -ssign[i, j] else lambda n: o.fail(n, '%s compare as %d both ways round' % (what, ssign[i, j])))(nm1)
            ck.run('hsh_string_compare', e, st, [p, q], post, label='%r, %r' % (x[:12], y[:12]))

    # ---- tables that are not told otherwise take strings for keys
    nm2 = 'keys are strings unless the table is told otherwise'
    for mod, tag, fn in (('hash', 'table', 'hsh_create'), ('set', 'set', 'set_create')):
        F = fields_of(ck.prog, mod, tag)
        for given in ((), (0,), (1,)):
            e, st = start()
            own = sym('given', ptr=True)
            st.facts = st.facts.assume(ne(own))

            def post(o, given=given, F=F):
                for i, f in enumerate(('hash', 'compare')):
                    v = o.fld(o.ret, F, f)
                    if i in given:
                        o.equal(v, own, 'the given function is used')
                        continue
                    a = single(o.st.norm(v))
                    if a is not None and a.fn == 'fn' and a.args[0] == 'hsh_string_' + f:
                        o.good(nm2)
                    elif v is ZERO or a is not None and (a is single(own) or a.fn == 'fn' and str(a.args[0]).startswith('hsh_')):
                        o.fail(nm2, 'without a %s function the keys are handled by %s' % (f, v))
                    else:
                        o.undec(nm2, 'the %s function is %s' % (f, v))
            ck.run(fn, e, st, [own if i in given else ZERO for i in (0, 1)], post, label='given: %s' % (', '.join(('hash', 'compare')[i] for i in given) or 'none'))

    # ---- a null string is not a key
    nm = 'a null string key is an internal error'

    def refused(o):
        o.fail(nm, 'the call returns %s' % o.ret)

    def nr(o, what):
        (o.good if what == 'err_internal' else lambda n: o.fail(n, 'the call ends in %s' % what))(nm)
    for fn, args, lab in (('hsh_string_hash', [ZERO], 'null'), ('hsh_string_compare', [ZERO, B], 'first null'), ('hsh_string_compare', [A, ZERO], 'second null'), ('hsh_string_compare', [ZERO, ZERO], 'both null')):
        e, st = start()
        st.facts = st.facts.assume(le(const(4096), A)).assume(le(const(4096), B))
        ck.run(fn, e, st, args, refused, label=lab, on_noreturn=nr)
    return dict(minimum=100, technique='Abstract interpretation of the LLVM IR of the key functions (no execution): the hash value is derived as a term over the characters of the key (or the pointer value) and must be made of these alone; comparisons are derived for any two keys and for chosen pairs (prefixes, last and first character, sign, high bits); bounds are checked on every read.')
