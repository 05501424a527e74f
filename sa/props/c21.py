"""C21: splitting a command line is total and follows the documented quoting."""
import product as PD
import models as MO
from spec import *

STR = sym('string', ptr=True)
DQ, SQ, BS = 34, 39, 92
SPACES = (32, 9, 13, 11, 10)
LIMIT = 1500
SPECIAL = (0, DQ, SQ, BS) + SPACES + (12,)


def chr_(i):
    return app('letter', i, rng=(-128, 127))


def known(st, i):
    """the i-th character: its code, 'other', or None while nothing is known"""
    c = chr_(i)
    for v in SPECIAL:
        d = st.decide(eq(c, const(v)))
        if d is None:
            return None
        if d:
            return v
    return 'other'


class Spec:
    """the documented rules: what a prefix of the text means"""

    def __init__(s, quotes, escapes):
        s.quotes, s.escapes = quotes, escapes
        s.mode, s.pending, s.cur, s.done, s.end = 'plain', False, (), (), False

    def feed(s, i, c):
        n = Spec(s.quotes, s.escapes)
        n.mode, n.pending, n.cur, n.done = s.mode, s.pending, s.cur, s.done
        if c == 0:
            n.end = True
            if n.pending:
                n.done += (n.cur,)
                n.pending, n.cur = False, ()
            return n
        q = {DQ: 'dq', SQ: 'sq'}.get(c) if s.quotes else None
        if s.mode == 'esc':
            n.mode, n.cur = 'plain', s.cur + (i,)
        elif s.mode in ('dq', 'sq'):
            if q == s.mode:
                n.mode = 'plain'
            else:
                n.cur += (i,)
        elif c in SPACES:
            if n.pending:
                n.done += (n.cur,)
                n.pending, n.cur = False, ()
        elif q:
            n.mode, n.pending = q, True
        elif c == BS and s.escapes:
            n.mode, n.pending = 'esc', True
        else:
            n.pending, n.cur = True, s.cur + (i,)
        return n


def shown(st):
    out = ''
    for i in range(st.extra.get('nread', 0)):
        k = known(st, i)
        out += {0: '<NUL>', 'other': 'a', None: '?', 9: '<TAB>', 10: '<LF>', 11: '<VT>', 13: '<CR>', 12: '<FF>'}.get(k) or chr(k)
    return out


def run(ck):
    MC = macros(['ARG_NO_QUOTE', 'ARG_NO_ESCAPE'])
    FA = fields_of(ck.prog, 'arg', 'Arg')

    def engine():
        e = ck.engine()
        e.use_global_init = True
        e.check_bounds = True
        e.pathwise = 60
        e.budget = 2000000
        M = e.models
        M['dbg_test'] = lambda en, st, ins, a: ZERO
        seen, cut = set(), []

        def text(st, root, idx, size, ty):
            o = st.norm(idx[-1])
            if size != 1:
                return None
            if not isconst(o):
                raise GiveUp('character at %s' % o)
            if o.c < 0:
                st.errs = st.errs + (('overrun', 'arg.c', 'reads before the text', ''),)
                raise E.Fault('overrun')
            for i in range(o.c + 1):
                k = known(st, i)
                if k is None:
                    for v in SPECIAL:
                        c = st.norm(eq(chr_(i), const(v)))
                        if st.decide(c) is None:
                            raise NeedSplit(c)
                if k == 0 and i < o.c:
                    st.errs = st.errs + (('overrun', 'arg.c', 'reads %d characters beyond the end of the text' % (o.c - i), ''),)
                    raise E.Fault('overrun')
            st.extra['nread'] = max(st.extra.get('nread', 0), o.c + 1)
            k = known(st, o.c)
            return chr_(o.c) if k == 'other' else const(k)
        e.regions[('P', single(STR))] = text

        def positions(en, st, ins, p, n):
            n = st.norm(n)
            if not isconst(n):
                raise GiveUp('length %s' % n)
            if n.c < 0:
                st.errs = st.errs + (('overrun', en.prog.loc(ins), 'a negative length %d' % n.c, en.callstack(st)),)
                raise E.Fault('overrun')
            out = []
            for i in range(n.c):
                v = st.norm(en.read(st, add(p, const(i)), 1, ir.INTS[8]))
                x = single(v) if isinstance(v, Lin) else None
                root, idx = en.root_of(st, add(p, const(i)))
                if root == ('P', single(STR)):
                    out.append(st.norm(idx[-1]).c)
                elif x is not None and x.fn == 'letter':
                    out.append(x.args[0] if isinstance(x.args[0], int) else st.norm(x.args[0]).c)
                elif any(y.fn == 'undef' for y in deep_atoms(v)):
                    st.errs = st.errs + (('uninit', en.prog.loc(ins), 'characters that were never set', en.callstack(st)),)
                    raise E.Fault('uninit')
                elif isconst(v):
                    out.append(('code', v.c))
                else:
                    raise GiveUp('character %s' % v)
            return tuple(out)

        def grow(en, st, ins, a):
            st.extra['cur'] = st.extra.get('cur', ()) + positions(en, st, ins, a[1], a[2])
        M['mem_grow'] = grow

        def stored(en, st, ins, content):
            r = en.fresh(st, 'text', ptr=True)
            st.facts = st.facts.assume(ne(r)) or st.facts
            st.extra['stored'] = st.extra.get('stored', ()) + ((r, content),)
            return r

        def finish(en, st, ins, a):
            c = st.extra.get('cur', ())
            st.extra['cur'] = ()
            return stored(en, st, ins, c)
        M['mem_finish'] = finish
        M['mem_strncpy'] = lambda en, st, ins, a: stored(en, st, ins, positions(en, st, ins, a[1], a[2]))

        def create(en, st, ins, a):
            r = en.fresh(st, 'mem_create_strings', ptr=True)
            st.facts = st.facts.assume(ne(r)) or st.facts
            return r
        M['mem_create_strings'] = create

        def run_spec(st, upto):
            s = spec0
            for i in range(upto):
                k = known(st, i)
                if k is None:
                    return None
                s = s.feed(i, k)
                if s.end:
                    break
            return s

        def back(st, L):
            fr = st.frames[-1]
            n = st.extra.get('nread', 0)
            s = run_spec(st, n)
            if s is None:
                return True
            done = tuple(c for r, c in st.extra.get('stored', ()))
            cur = st.extra.get('cur', ())
            ok = done == s.done[:len(done)]
            rest = s.cur[len(cur):] if cur == s.cur[:len(cur)] and len(done) == len(s.done) else ('other', done != s.done, cur != s.cur[:len(cur)], n)

            lag = []

            def show(v, index):
                d = sub(v, STR)
                if index and isconst(v) and v.c >= 0:
                    d = v
                if isconst(d):
                    k = n - d.c
                    whole = rest == tuple(range(d.c, n))        # it stands where what is still to be stored begins
                    if k > 2 and not whole:
                        lag.append(k)
                    return 'text-%s' % ((k, whole) if k <= 1 else whole or k,)
                if single(v) is not None and single(v).fn == 'letter':
                    return 'char'
            vals = PD.snapshot(e, st, show)
            count = min(len(s.done), 3)
            key = repr((fr.f.key, L.header, count, s.mode, s.pending, 'in order' if ok else done, len(rest) > 0 if rest == tuple(range(n - len(rest), n)) else rest, vals))
            if key in seen:
                return False
            seen.add(key)
            if rest[:1] == ('other',) or lag:
                st.extra.setdefault('behind', n)
            else:
                st.extra.pop('behind', None)
            wrong = not ok or len(done) == len(s.done) and cur != s.cur[:len(cur)] or n - st.extra.get('behind', n) >= 2
            if len(seen) >= LIMIT:
                st.extra['cut'] = True
                cut.append(1)
            if (wrong or len(seen) >= LIMIT) and known(st, n) is None and not s.end:
                # what is kept already differs: how does it end when the text ends here?
                f = st.facts.assume(eq(chr_(n)))
                if f is not None:
                    st.facts = f
            return True
        e.backhook = back

        spec0 = None

        def use(s):
            nonlocal spec0
            spec0 = s
            seen.clear()
            del cut[:]
        e.use_spec = use
        e.run_spec = run_spec
        e.seen_keys, e.cut = seen, cut
        return e

    total = {}
    for name, style in (('all quoting', 0), ('no quotes', MC['ARG_NO_QUOTE']), ('no escapes', MC['ARG_NO_ESCAPE']), ('neither', MC['ARG_NO_QUOTE'] | MC['ARG_NO_ESCAPE'])):
        e = engine()
        e.use_spec(Spec(not style & MC['ARG_NO_QUOTE'], not style & MC['ARG_NO_ESCAPE']))
        st = e.new_state()
        st.facts = st.facts.assume(ne(STR)).assume(le(const(4096), STR))

        def judge(o):
            st2 = o.st
            n = st2.extra.get('nread', 0)
            if any(known(st2, i) == 12 for i in range(n)):
                return              # the rules do not name form feed
            s = o.e.run_spec(st2, n)
            nm = 'the whole text is read'
            t = shown(st2)
            if s is None or not s.end:
                return o.fail(nm, 'returns after %r' % t)
            o.good(nm)
            nm = 'the arguments follow the quoting rules'
            argc = st2.norm(o.fld(o.ret, FA, 'argc'))
            v = o.fld(o.ret, FA, 'argv')
            if not isconst(argc):
                return o.undec(nm, 'number of arguments %s' % argc)
            got = []
            by = {r: c for r, c in st2.extra.get('stored', ())}
            for i in range(argc.c):
                p = st2.norm(o.rd(add(v, const(8 * i)), 8, True))
                if p not in by:
                    return o.fail(nm, 'for %r argument %d is %s' % (t, i, p))
                got.append(by[p])
            if tuple(got) == s.done:
                o.good(nm)
            else:
                w = lambda a: [''.join(t_of(st2, x) for x in y) for y in a]
                o.fail(nm, 'for the text %s the arguments are %r, must be %r (a stands for any other character)' % (t, w(got), w(s.done)))

        def end(o, how):
            s = o.e.run_spec(o.st, o.st.extra.get('nread', 0))
            o.fail('no text is refused', 'ends in %s for %r' % (how, shown(o.st)))
        ck.run('arg_argify', e, st, [STR, const(style)], judge, label=name, on_noreturn=end)
        total[name] = len(e.seen_keys)
        if e.cut:
            ck.undecided('arg_argify', 'every text is covered', 'more than %d states of the splitter' % LIMIT)
    ck.extra['distinct_states_of_the_splitter'] = total
    ck.rule('every text over every character: the product of the splitter and the documented rules is explored to a fixpoint; form feed is left out as the rules do not name it')
    ck.finish('static: the loop of arg_argify is explored together with an automaton of the documented rules until no new pair of states appears (product construction); what is stored is compared position by position', level='other', minimum=30)


def t_of(st, x):
    if isinstance(x, tuple):
        return '<%d>' % x[1]
    k = known(st, x)
    return 'a' if k in ('other', None) else chr(k)
