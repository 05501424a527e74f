"""C28: source positions describe the text that was read."""
import hashmodel as HM
import hist as H
import memmodel as MM
import output as OUT
import text as X
from spec import *

K, N, L = (sym(n, rng=(1, 1 << 20)) for n in ('advance', 'newline', 'length'))
INT_MAX = (1 << 31) - 1


def split(b):
    """words of a directive; quotes hold a word together and are dropped"""
    out, cur, q = [], None, False
    for c in b:
        if c == 34:
            q, cur = not q, cur or b''
        elif c in b' \t\n' and not q:
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or b'') + bytes([c])
    return out + ([cur] if cur is not None else [])


def arg_models(e):
    M = e.models

    def argify(en, st, ins, a):
        t = X.concrete(en, st, a[0])
        if t is None:
            for i in range(200):
                v = st.norm(en.read(st, add(a[0], const(i)), 1, ir.INTS[8]))
                if any(x.fn == 'undef' for x in deep_atoms(v)):
                    X.raise_fault(en, st, 'uninit', ins, 'the text to split runs into memory that was never set')
                if not isconst(v):
                    break
            raise GiveUp('arg_argify of unknown text')
        h = en.fresh(st, 'arg_argify', ptr=True)
        st.facts = st.facts.assume(ne(h)) or st.facts
        ps = []
        for w in split(t):
            p = en.allocate(st, ins, const(len(w) + 1))
            for i, c in enumerate(w + b'\0'):
                en.write(st, add(p, const(i)), 1, const((c ^ 128) - 128), en.prog.loc(ins))
            ps.append(p)
        st.extra[('args', h)] = tuple(ps)
        return h
    M['arg_argify'] = argify

    def lst(en, st, ins, h):
        h = st.norm(h)
        t = st.extra.get(('args', h))
        if t is None:
            raise GiveUp('unknown argument list')
        if t == 'destroyed':
            X.raise_fault(en, st, 'use-after-free', ins, 'an argument list is used after arg_destroy')
        return h, t

    def get(en, st, ins, a):
        h, t = lst(en, st, ins, a[0])
        i = st.norm(a[1])
        if not isconst(i):
            raise GiveUp('argument %s' % i)
        if not 0 <= i.c < len(t):
            en.event(st, 'err_internal', [], None, ins)
            return 'noreturn:err_internal'
        return t[i.c]
    M['arg_get'] = get
    M['arg_count'] = lambda en, st, ins, a: const(len(lst(en, st, ins, a[0])[1]))

    def destroy(en, st, ins, a):
        import models as MO
        h, t = lst(en, st, ins, a[0])
        for p in t:
            MO.do_free(en, st, ins, p)
        st.extra[('args', h)] = 'destroyed'
        return None
    M['arg_destroy'] = destroy

    def atoi(en, st, ins, a):
        t = X.concrete(en, st, a[0])
        if t is None:
            raise GiveUp('number in unknown text')
        import re
        m = re.match(rb'\s*([-+]?\d+)', t)
        return const(int(m.group(1)) if m else 0)
    M['atoi'] = atoi

    def strtol(en, st, ins, a):
        if st.norm(a[1]) is not ZERO:
            raise GiveUp('strtol with an end pointer')
        return atoi(en, st, ins, a)
    M['strtol'] = strtol


def engine(ck, maps=None):
    e = ck.engine()
    e.use_global_init = True
    X.install(e)
    HM.interning(e)
    MM.install(e)
    arg_models(e)
    e.check_bounds = True
    e.models['dbg_test'] = lambda en, st, ins, a: ZERO
    for n in ('log_info', 'log_error'):
        e.models[n] = lambda en, st, ins, a: None

    def concrete(en, st, ins, a):
        t = X.concrete(en, st, a[0])
        if t is None:
            en.access(st, a[0], 1, ins, False)
            return ZERO
        en.event(st, 'prs_concrete', [app('text', t.decode('latin1'), ptr=True)], None, ins)
        return (maps or {}).get(t, ZERO)
    e.models['prs_concrete'] = concrete
    return e


class G:
    """what a user knows after a history"""

    def __init__(g, **kw):
        g.active, g.file, g.line, g.off, g.lines, g.idx, g.pos = False, None, ZERO, ZERO, (), None, ()
        g.__dict__.update(kw)

    def but(g, **kw):
        d = dict(g.__dict__)
        d.update(kw)
        return G(**d)

    def key(g):
        return (g.active, str(g.file), 'zero' if g.line is ZERO else 'set' if deep(g.line, 'newline') else 'counted', 'zero' if g.off is ZERO else 'moved', len(g.lines), len(g.pos), g.idx is not None)


def deep(x, nm):
    return any(a.fn == 'sym' and a.args[0] == nm for a in deep_atoms(x))


ACC = (('src_filename', 'the file'), ('src_linenumber', 'the line number'), ('src_offset', 'the offset'), ('src_length', 'the length'), ('src_source_line', 'the text line'))


def call(e, st, fn, args):
    c = st.copy()
    c.events, c.errs, c.path = (), (), ()
    c.frames, c.term, c.retval = [], None, None
    e.steps = 0
    outs = e.run(c, fn, args)
    live = [o for o in outs if o.term != 'unreachable']
    return live[0] if len(live) == 1 else None


def check_position(o, p, want, nm, text=True):
    """want: (file, line, offset, length, text)"""
    for (fn, what), w in zip(ACC, want):
        if w is None:
            continue
        if fn == 'src_source_line' and not text:
            continue
        s = call(o.e, o.st, fn, [p])
        lab = '%s: %s' % (nm, what)
        if s is None:
            o.undec(lab, 'several ways through %s' % fn)
            continue
        if s.term != 'ret':
            (o.undec if s.term.startswith('giveup') or s.taint else o.fail)(lab, '%s ends in %s %s' % (fn, s.term, s.errs[-1:] or ''))
            continue
        r = s.norm(s.retval)
        if fn == 'src_filename':
            w = app('interned', str(w), ptr=True) if isinstance(w, bytes) else w
            if r is w:
                o.good(lab)
                continue
            t = X.concrete(o.e, s, r)
            if t is not None:
                (o.good if str(t) == single(w).args[0] else lambda n: o.fail(n, 'text %r' % t))(lab)
            elif r is ZERO or single(r) is not None and single(r).fn == 'interned':
                o.fail(lab, 'gives %s, expected %s' % (r, w))
            else:
                o.undec(lab, 'gives %s' % r)
        elif fn == 'src_source_line':
            t = X.concrete(o.e, s, r)
            if t is None:
                o.undec(lab, 'text at %s not known' % r)
            elif t == w:
                o.good(lab)
            else:
                o.fail(lab, 'gives %r, the line is %r' % (t, w))
        else:
            o.must(eq(r, w), lab, '%s gives %s, expected %s' % (fn, r, w))


def observe(o, g):
    """everything handed out so far still says the same, and a position taken now says what is in force"""
    for ptr, text in g.lines:
        nm = 'a stored line stays as it was read'
        try:
            root, idx = o.e.root_of(o.st, ptr)
            if o.e.is_freed(o.st, root, idx):
                o.fail(nm, 'its memory is released')
                continue
        except GiveUp:
            pass
        t = X.concrete(o.e, o.st, ptr)
        (o.good(nm) if t == text else o.undec(nm, 'text not known') if t is None else o.fail(nm, 'is %r, was read as %r' % (t, text)))
    for p, want in g.pos:
        check_position(o, p, want, 'a position keeps what it was taken with')
    if g.active:
        s = call(o.e, o.st, 'src_get', [L])
        if s is None or s.term != 'ret':
            nm = 'a position can be taken'
            (o.undec if s is None or s.term.startswith('giveup') else o.fail)(nm, 'src_get ends in %s' % (s and s.term))
            return
        s2 = Out(o.ck, o.lab, o.name, o.e, s)
        s2.st.term = None
        check_position(s2, s.norm(s.retval), now(g, L), 'a position has what is in force')
        o.results += s2.results


def now(g, length):
    return (g.file, g.line, g.off, length, g.lines[g.idx][1] if g.idx is not None else None)


def run(ck):
    LINES = [('line A', b'int\tx;\n', b'int x;\n', False), ('line B', b'y = 2\n', b'y = 2\n', True), ('line E', b'', b'', False), ('line T', b'\t\t\n', b'  \n', False)]
    FILES = [('file F', b'f.c'), ('file G', b'g.c')]
    DIRS = [(b'# 12 "inc.h"\n', 11, b'inc.h'), (b'#line 7\n', 6, None), (b'# 31 "a b.c" 2\n', 30, b'a b.c'), (b'# 1 "top.c"\n', 0, b'top.c')]
    e = engine(ck)
    st = e.new_state()
    args = {}
    for nm, b, _, term in LINES:
        args[nm] = literal(e, st, nm.replace(' ', ''), b, terminated=term)
    for nm, b in FILES:
        args[nm] = literal(e, st, nm.replace(' ', ''), b)
    for i, (b, _, _) in enumerate(DIRS):
        args['dir%d' % i] = literal(e, st, 'directive%d' % i, b, terminated=False)
    ops = []

    def ends(o, noret, what):
        if noret is not None:
            o.fail('%s returns' % what, 'ends in %s' % noret)
            return False
        return True

    def op_line(i):
        nm, b, text, _ = LINES[i]

        def judge(o, g, evs, noret):
            if not ends(o, noret, 'storing a line'):
                return None
            t = X.concrete(o.e, o.st, o.ret)
            n2 = 'storing a line gives the stored text'
            if t is None:
                o.undec(n2, 'text at %s not known' % o.ret)
            else:
                (o.good if t == text else lambda m: o.fail(m, 'gives %r for %r' % (t, b)))(n2)
            g2 = g.but(active=True, line=add(g.line, ONE), off=ZERO, idx=len(g.lines), lines=g.lines + ((o.ret, text),))
            observe(o, g2)
            return g2
        ops.append(('src_line(%s)' % nm[-1], 'src_line', lambda g, s2: [args[nm], const(len(b))] if len(g.lines) < 2 and text not in [t for _, t in g.lines] else None, judge))

    def op_file(i):
        nm, b = FILES[i]

        def judge(o, g, evs, noret):
            if not ends(o, noret, 'naming the file'):
                return None
            g2 = g.but(file=b)
            observe(o, g2)
            return g2
        ops.append(('src_new_file(%s)' % nm[-1], 'src_new_file', lambda g, s2: [args[nm]], judge))

    def simple(label, fn, a, change, when=lambda g: True):
        def judge(o, g, evs, noret):
            if not ends(o, noret, fn):
                return None
            g2 = change(g)
            observe(o, g2)
            return g2
        ops.append((label, fn, lambda g, s2: a if when(g) else None, judge))

    def directive(i):
        b, line, f = DIRS[i]
        simple('src_cpp_line(%d)' % (i + 1), 'src_cpp_line', [args['dir%d' % i], const(len(b))], lambda g: g.but(line=const(line), file=f or g.file))
    op_line(0)
    op_line(1)
    op_line(2)
    op_line(3)
    op_file(0)
    op_file(1)
    simple('src_new_line', 'src_new_line', [N], lambda g: g.but(line=N))
    simple('src_advance', 'src_advance', [K], lambda g: g.but(off=add(g.off, K)), lambda g: not deep(g.off, 'advance'))
    for i in range(len(DIRS)):
        directive(i)

    def judge_get(o, g, evs, noret):
        if not g.active:
            nm = 'no position without a source'
            (o.good(nm) if noret in ('err_fatal', 'err_internal') else o.fail(nm, 'src_get returns %s' % o.ret if noret is None else noret))
            return None
        if not ends(o, noret, 'taking a position'):
            return None
        want = now(g, L)
        check_position(o, o.ret, want, 'a position has what is in force')
        g2 = g.but(off=add(g.off, L), pos=g.pos + ((o.ret, want),))
        observe(o, g2)
        return g2
    ops.append(('src_get', 'src_get', lambda g, s2: [L] if len(g.pos) < 2 and not (deep(g.off, 'length') and deep(g.off, 'advance')) else None, judge_get))
    for fn, what in ACC:
        def judge_acc(o, g, evs, noret):
            nm = 'accessors are fatal before there is a source'
            if not g.active:
                (o.good(nm) if noret in ('err_fatal', 'err_internal') else o.fail(nm, 'returns %s' % o.ret if noret is None else noret))
            return None
        ops.append((fn, fn, lambda g, s2: [sym('position', ptr=True)] if not g.active else None, judge_acc))

    def judge_destroy(o, g, evs, noret):
        if not ends(o, noret, 'destroying the source'):
            return None
        return G()
    ops.append(('src_destroy', 'src_destroy', lambda g, s2: [] if g.active else None, judge_destroy))
    simple('src_create', 'src_create', [], lambda g: g.but(active=True), lambda g: not g.active)
    H.explore(ck, e, st, G(), ops, signature=lambda g, s2: (g.key(), MM.signature(s2) if not g.active else ''), label='source positions', limit=600)
    null_position(ck)
    growth(ck)
    messages(ck)
    return dict(minimum=200)


def prefix(ck, e):
    """a state with a file, two lines and a position on the second"""
    st = e.new_state()
    A, B, F = literal(e, st, 'la', b'int x;\n'), literal(e, st, 'lb', b'y = 2\n'), literal(e, st, 'fn', b'f.c')
    for fn, a in (('src_new_file', [F]), ('src_line', [A, const(7)]), ('src_line', [B, const(6)]), ('src_new_line', [N]), ('src_advance', [K]), ('src_get', [L]), ('src_line', [A, const(7)])):
        st.events, st.path, st.errs, st.term, st.retval, st.frames = (), (), (), None, None, []
        e.steps = 0
        outs = [o for o in e.run(st, fn, a) if o.term != 'unreachable']
        if len(outs) != 1 or outs[0].term != 'ret':
            raise GiveUp('prefix: %s ends in %s' % (fn, [o.term for o in outs]))
        st = outs[0]
        if fn == 'src_get':
            p = st.norm(st.retval)
    st.events, st.path, st.errs, st.term, st.retval, st.frames = (), (), (), None, None, []
    return st, p


def null_position(ck):
    e = engine(ck)
    try:
        st, p = prefix(ck, e)
    except GiveUp as g:
        return ck.undecided('source', 'null position', g)
    for (fn, what), w in zip(ACC, (b'', 0, 0, 0, b'')):
        def post(o, w=w):
            nm = 'no position: nothing known'
            if isinstance(w, int):
                return o.must(eq(o.ret, const(w)), nm, 'gives %s' % o.ret)
            t = X.concrete(o.e, o.st, o.ret)
            (o.good(nm) if t == w else o.undec(nm, 'text at %s' % o.ret) if t is None else o.fail(nm, 'gives %r' % t))
        ck.run(fn, e, st.copy(), [ZERO], post, label='no position')


def statics_of(ck, *names):
    g = ck.prog.mods['source'].globals
    return all(n in g for n in names)


def statadr(e, n):
    return e.globaddr(e.prog.mods['source'], n)


def growth(ck):
    """the table of lines at any fill: there is always room for the next line"""
    if not statics_of(ck, 'Lines', 'Count', 'Used'):
        return ck.undecided('src_line', 'room for the next line', 'the line table is kept elsewhere')
    e = engine(ck)
    e.use_global_init = False
    st = e.new_state()
    u, c = sym('used', rng=(0, 1 << 20)), sym('count', rng=(1, 1 << 20))
    T = sym('lines', ptr=True)
    st.facts = st.facts.assume(ne(T)).assume(lt(u, c))
    e.extents[('P', single(T))] = mul(c, 8)
    loc = 'pre'
    for n, v, z in (('Lines', T, 8), ('Count', c, 4), ('Used', u, 4)):
        e.write(st, statadr(e, n), z, v, loc)
    H1 = sym('strings', ptr=True)
    for n, kind in (('StringHeap', 'strings'), ('InfoHeap', 'objects')):
        if statics_of(ck, n):
            h = sym('h_' + n, ptr=True)
            st.facts = st.facts.assume(ne(h))
            e.write(st, statadr(e, n), 8, h, loc)
            st.extra[('mem', h)] = (kind, const(32), ())
    A = literal(e, st, 'la', b'int x;\n')

    def post(o):
        T2, c2, u2 = (o.rd(statadr(e, n), z, z == 8) for n, z in (('Lines', 8), ('Count', 4), ('Used', 4)))
        o.must(eq(u2, add(u, ONE)), 'a line takes one entry', '%s entries used after %s' % (u2, u))
        nm = 'there is always room for the next line'
        o.must(lt(u2, c2), nm, '%s entries used of %s' % (u2, c2))
        try:
            root, idx = e.root_of(o.st, T2)
            sz = e.objsize(o.st, root, idx) if root[0] == 'A' else e.extents.get(root)
        except GiveUp:
            sz = None
        if sz is None:
            o.undec(nm, 'size of the table unknown')
        else:
            o.must(le(mul(c2, 8), sz), nm, 'the table has %s bytes for %s entries' % (sz, c2))
        x = o.rd(add(T2, mul(u, 8)), 8, True)
        o.equal(x, o.ret, 'the line is kept in the table')
        j = sym('j', rng=(0, 1 << 20))
        if o.need(lt(j, u)):
            x, y = o.rd(add(T2, mul(j, 8)), 8, True), app('mem', T, mul(j, 8), ptr=True)
            was = e.initial(o.st, ('P', single(T)), (mul(j, 8),), 8, ir.PTR)
            o.equal(x, was, 'the earlier lines stay in the table')
    ck.run('src_line', e, st.copy(), [A, const(7)], post, label='any number of lines')
    # given back at any fill, and used again
    st2 = st.copy()
    e.steps = 0
    outs = [o for o in e.run(st2, 'src_destroy', []) if o.term != 'unreachable']
    if len(outs) != 1 or outs[0].term != 'ret':
        return ck.undecided('src_destroy', 'at any fill', [o.term for o in outs])
    st2 = outs[0]
    st2.term, st2.retval, st2.frames = None, None, []

    def post2(o):
        T2, c2, u2 = (o.rd(statadr(e, n), z, z == 8) for n, z in (('Lines', 8), ('Count', 4), ('Used', 4)))
        nm = 'after destroying the source there is room again'
        o.must(lt(u2, c2), nm, '%s entries used of %s' % (u2, c2))
    ck.run('src_line', e, st2, [A, const(7)], post2, label='after src_destroy at any fill')


def messages(ck):
    S = sym('stream', ptr=True)
    inF = app('interned', str(b'f.c'), ptr=True)
    head = [('s', inF), ('lit', ':'), ('num', N), ('lit', ': ')]

    def glue(ps):
        out = []
        for p in ps:
            if p[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
            elif p[0] != 'lit' or p[1]:
                out.append(p)
        return out
    line = head + [('lit', 'y = 2\n')]
    caret = head + [('rep', ' ', K), ('rep', '^', L), ('lit', '\n')]

    def both(fn, extra, want, want0, label='', maps=None):
        for pos in (True, False):
            e = engine(ck, maps)
            try:
                st, p = prefix(ck, e)
            except GiveUp as g:
                ck.undecided(fn, 'message', g)
                continue
            st.facts = st.facts.assume(ne(S))
            a = extra(e, st)
            w = want if pos else want0

            def post(o, w=w):
                OUT.same(o, OUT.pieces(o), glue(w), 'the message shows the position' if pos else 'the message says that there is no position')
            ck.run(fn, e, st, [S, p if pos else ZERO] + a, post, label=' '.join(x for x in (label, '' if pos else 'no position') if x))
    noline = [('lit', '?:?: <source line not available>\n')]
    both('src_print_line', lambda e, st: [], line, noline)
    fmt = sym('format', ptr=True)

    def fmtarg(e, st):
        st.facts = st.facts.assume(ne(fmt))
        return [fmt]
    q = [('lit', '?:?: ')]
    nl = [('lit', '\n')]
    both('src_print_error', fmtarg, head + [('v', fmt)] + nl + line + caret, q + [('v', fmt)] + nl + noline + q + nl)
    both('src_print_error', lambda e, st: [ZERO], line + caret, noline + q + nl, label='no message')
    both('src_print_message', fmtarg, head + [('v', fmt)] + nl, q + [('v', fmt)] + nl)
    long = b'T_' + b'x' * 1030
    plus = sym('plus', ptr=True)
    MSGS = [(b'parse error', [('lit', 'parse error')], {}),
            (b'got `T_PLUS\', expecting `T_ID\'', [('lit', "got `"), ('s', plus), ('lit', "', expecting `T_ID'")], {b'T_PLUS': plus}),
            (b"got ``;'', expecting x", [('lit', "got `;', expecting x")], {}),
            (b'`T_abc', None, {}), (b'`T_', None, {}), (b'`', None, {}), (b'``', None, {}), (b'``a', None, {}), (b"``a'", None, {}), (b'`T', None, {}), (b"`T_'", None, {}),
            (b'`' + long + b"' end", None, {}), (b'`' + long, None, {})]
    for msg, shown, maps in MSGS:
        e = engine(ck, maps)
        try:
            st, p = prefix(ck, e)
        except GiveUp as g:
            ck.undecided('src_parse_error', 'message', g)
            continue
        st.facts = st.facts.assume(ne(S)).assume(ne(plus))
        m = literal(e, st, 'message', msg)
        e.MAXUNROLL = len(msg) + 50

        def post(o):
            if shown is None:
                return o.good('the message is read and written inside its bounds')
            OUT.same(o, OUT.pieces(o), glue(head + shown + nl + line + caret), 'the message shows the position')
        ck.run('src_parse_error', e, st, [S, p, m], post, label=repr(msg[:24])[1:])
