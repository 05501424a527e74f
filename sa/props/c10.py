"""C10: string memory returns exact, terminated, private copies."""
from seqs import *


class Strings:
    """pre-state of a string-memory object"""

    def __init__(s, ck):
        s.ck = ck
        s.q = Seq(ck, 'stack', 'stack', 'data', 'datum', 'prev')
        s.F = fields_of(ck.prog, 'memory', 'stringInfo')
        for f in ('magic', 'count', 'bytes', 'growing_size', 'allocated'):
            ck.need(f in s.F, 'field stringInfo.%s' % f)
        s.magic = macros(['MEM_STRINGS_MAGIC'])['MEM_STRINGS_MAGIC']
        s.I, s.K = sym('I', ptr=True), sym('K', ptr=True)
        s.S = atom('lchain', single(s.K))
        s.n = app('n', s.S)
        s.cnt, s.byt, s.g = sym('count', rng=(0, 1 << 30)), sym('bytes', rng=(0, 1 << 30)), sym('g', rng=(0, 1 << 29))
        s.src, s.len = sym('src', ptr=True), sym('len', rng=(0, 1 << 29))
        s.w = sym('w', rng=(0, None))

    def start(s):
        e = s.ck.engine()
        s.q.install(e)
        st = e.new_state()
        obj(e, s.I, s.F, {'magic': const(s.magic), 'count': s.cnt, 'bytes': s.byt, 'growing_size': s.g, 'allocated': s.K})
        obj(e, s.K, s.q.O, {'data': app('elem', s.S, ZERO)})
        for x in (s.I, s.K, s.src):
            st.facts = st.facts.assume(ne(x))
        e.check_bounds = True
        small(st, s.n)
        top = single(app('datum', s.S, ZERO, ptr=True))
        e.extents[('P', top)] = s.g
        return e, st

    def counters(s, o, dc, db, g):
        for f, v, what in (('count', add(s.cnt, dc), 'strings'), ('bytes', add(s.byt, db), 'bytes'), ('growing_size', g, 'pending characters')):
            x = o.fld(s.I, s.F, f)
            o.must(eq(x, v), 'the counter of %s is exact' % what, 'it becomes %s, expected %s' % (x, v))

    def text(s, o, p, want, length, nm, terminated=True):
        """the block p holds want(w) for every w < length, then NUL"""
        st = o.st
        w = s.w
        if o.need(lt(w, length)):
            v = o.e.read(st, add(p, w), 1, ir.INTS[8])
            x = want(o, w)
            o.must(eq(v, x), nm, 'character %s is %s, expected %s' % (w, v, x), strict=True)
        elif terminated:
            v = o.e.read(st, add(p, length), 1, ir.INTS[8])
            o.must(eq(v), nm, 'the byte after the last character is %s, not NUL' % v, strict=True)

    def private(s, o, p, size):
        """a fresh block of enough bytes, not released, owned by the object"""
        root, idx = o.e.root_of(o.st, p)
        if root[0] != 'A':
            return o.fail('the copy has memory of its own', 'the result points into %s' % (root,))
        if o.st.freed.get(root) and o.e.is_freed(o.st, root, idx):
            return o.fail('the copy has memory of its own', 'the result is already released')
        z = o.e.objsize(o.st, root, idx)
        o.equal(idx[-1], ZERO, 'the copy has memory of its own')
        o.must(le(size, z), 'the copy has memory of its own', 'the block has %s bytes for %s' % (z, size))

    def owned(s, o, p, dropped=ZERO):
        q = s.q
        q.is_sequence(o, o.fld(o.st.norm(o.fld(s.I, s.F, 'allocated')), q.O, 'data'), s.S, [('val', p), ('run', dropped, s.n)], 'the block stays owned by the object until it is destroyed')
        q.contents_kept(o, s.S, 'earlier strings stay valid')
        fr = [r for r in o.st.freed if r[0] == 'P' and r[1].fn == 'datum']
        if o.st.decide(eq(dropped)) is True and fr:
            o.fail('earlier strings stay valid', 'an earlier block is released')


def char(src):
    return lambda o, w: o.e.char_at(o.st, single(src), w)


def run(ck):
    t = Strings(ck)
    # create
    e, st = t.start()

    def post(o):
        p = o.ret
        for f in ('count', 'bytes', 'growing_size'):
            o.must(eq(o.fld(p, t.F, f)), 'a new object has no strings', '%s is %s' % (f, o.fld(p, t.F, f)))
        o.equal(o.fld(p, t.F, 'magic'), const(t.magic), 'a new object passes its own handle check')
        k = o.fld(p, t.F, 'allocated')
        (o.good if o.isnull(o.fld(k, t.q.O, 'data')) else lambda z: o.fail(z, ''))('a new object has no strings')
    ck.run('mem_create_strings', e, st, [], post)

    # strcpy
    e, st = t.start()
    L = app('strlen', single(t.src))
    st.assume(le(L, const(1 << 29)))
    e.extents[('P', single(t.src))] = add(L, ONE)

    def post(o):
        t.private(o, o.ret, add(L, ONE))
        t.text(o, o.ret, char(t.src), L, 'the copy has exactly the given characters and a NUL')
        t.owned(o, o.ret)
        t.counters(o, ONE, add(L, ONE), ZERO)
    ck.run('mem_strcpy', e, st, [t.I, t.src], post)

    # strncpy: the source need not be terminated
    e, st = t.start()
    e.extents[('P', single(t.src))] = t.len

    def post(o):
        t.private(o, o.ret, add(t.len, ONE))
        t.text(o, o.ret, char(t.src), t.len, 'the copy has exactly the given characters and a NUL')
        t.owned(o, o.ret)
        t.counters(o, ONE, add(t.len, ONE), ZERO)
    ck.run('mem_strncpy', e, st, [t.I, t.src, t.len], post)

    # grow
    for lab, c in (('first piece', eq(t.g)), ('further piece', lt(ZERO, t.g))):
        e, st = t.start()
        e.extents[('P', single(t.src))] = t.len
        st.assume(c)
        first = lab == 'first piece'
        if not first:
            st.assume(lt(ZERO, t.n))
        old = app('datum', t.S, ZERO, ptr=True)

        def want(o, w):
            if not first and o.need(lt(w, t.g)):
                return o.e.char_at(o.st, single(old), w) if True else None
            return o.e.char_at(o.st, single(t.src), sub(w, t.g))

        def post(o, first=first, want=want):
            segs = t.q.segs(o, o.fld(o.fld(t.I, t.F, 'allocated'), t.q.O, 'data'))
            if not segs or segs[0][0] != 'node':
                return o.fail('the pieces are kept in the order given', 'the grown block is not recorded')
            p = t.q.datum(o, segs[0][1])
            t.private(o, p, add(t.g, t.len))
            t.text(o, p, want, add(t.g, t.len), 'the pieces are kept in the order given', False)
            t.owned(o, p, ZERO if first else ONE)
            t.counters(o, ZERO, t.len, add(t.g, t.len))
        ck.run('mem_grow', e, st, [t.I, t.src, t.len], post, label=lab)

    # finish
    for lab, c in (('nothing grown', eq(t.g)), ('pieces grown', lt(ZERO, t.g))):
        e, st = t.start()
        st.assume(c)
        first = lab == 'nothing grown'
        if not first:
            st.assume(lt(ZERO, t.n))
        old = app('datum', t.S, ZERO, ptr=True)

        def post(o, first=first, old=old):
            t.private(o, o.ret, add(t.g, ONE))
            t.text(o, o.ret, lambda o, w: o.e.char_at(o.st, single(old), w), t.g, 'the finished string is the pieces and a NUL')
            t.owned(o, o.ret, ZERO if first else ONE)
            t.counters(o, ONE, ONE, ZERO)
        ck.run('mem_finish', e, st, [t.I], post, label=lab)
    return dict(minimum=15)
