"""C11: object memory never hands out one object twice."""
from seqs import *


class Objects:
    def __init__(s, ck):
        s.ck = ck
        s.q = Seq(ck, 'stack', 'stack', 'data', 'datum', 'prev')
        s.F = fields_of(ck.prog, 'memory', 'objectInfo')
        for f in ('magic', 'total', 'used', 'reused', 'size', 'stack', 'allocated'):
            ck.need(f in s.F, 'field objectInfo.%s' % f)
        s.magic = macros(['MEM_OBJECTS_MAGIC'])['MEM_OBJECTS_MAGIC']
        s.I, s.K, s.A = sym('I', ptr=True), sym('K', ptr=True), sym('A', ptr=True)
        s.SF, s.SA = atom('lchain', single(s.K)), atom('lchain', single(s.A))
        s.nf, s.na = app('n', s.SF), app('n', s.SA)
        s.c = {f: sym(f, rng=(0, 1 << 30)) for f in ('total', 'used', 'reused')}
        s.size = sym('size', rng=(1, 1 << 30))
        s.w = sym('w', rng=(0, None))

    def start(s, plain=False):
        e = s.ck.engine()
        s.q.install(e)
        st = e.new_state()
        v = {'magic': const(s.magic), 'size': s.size, 'stack': s.K, 'allocated': s.A}
        v.update(s.c)
        obj(e, s.I, s.F, v)
        obj(e, s.K, s.q.O, {'data': app('elem', s.SF, ZERO)})
        obj(e, s.A, s.q.O, {'data': app('elem', s.SA, ZERO)})
        for x in (s.I, s.K, s.A):
            st.facts = st.facts.assume(ne(x))
        e.check_bounds = True
        small(st, s.nf, s.na)
        top = app('datum', s.SF, ZERO, ptr=True)
        e.extents[('P', single(top))] = s.size
        st.facts = st.facts.assume(ne(top))          # given-back objects are real objects
        st.assume(eq(s.c['total'], add(s.c['used'], s.nf)))
        return e, st

    def head(s, o, f):
        return o.fld(o.st.norm(o.fld(s.I, s.F, f)), s.q.O, 'data')

    def counters(s, o, **d):
        for f in ('total', 'used', 'reused'):
            x = o.fld(s.I, s.F, f)
            v = add(s.c[f], const(d.get(f, 0)))
            o.must(eq(x, v), 'the counter "%s" is exact' % f, 'it becomes %s, expected %s' % (x, v))
        o.must(eq(o.fld(s.I, s.F, 'size'), s.size), 'the object size stays')


def run(ck):
    t = Objects(ck)
    e, st = t.start()
    z = sym('z', rng=(1, 1 << 30))

    def post(o):
        p = o.ret
        for f in ('total', 'used', 'reused'):
            o.must(eq(o.fld(p, t.F, f)), 'a new object memory is empty', '%s is %s' % (f, o.fld(p, t.F, f)))
        o.must(eq(o.fld(p, t.F, 'size'), z), 'objects have the requested size', 'the size is %s' % o.fld(p, t.F, 'size'))
        o.equal(o.fld(p, t.F, 'magic'), const(t.magic), 'a new object memory passes its own handle check')
        ks = [o.st.norm(o.fld(p, t.F, f)) for f in ('stack', 'allocated')]
        for k in ks:
            (o.good if o.isnull(o.fld(k, t.q.O, 'data')) else lambda n: o.fail(n, ''))('a new object memory is empty')
        o.must(neg(o.e.ptr_eq(o.st, ks[0], ks[1])), 'free objects and all objects are recorded separately', 'one stack serves as both')
    ck.run('mem_create_objects', e, st, [z], post)

    for fn in ('mem_get_object', 'mem_get_empty_object'):
        for lab, c in (('none given back', eq(t.nf)), ('some given back', lt(ZERO, t.nf))):
            e, st = t.start()
            st.assume(c)
            reuse = lab == 'some given back'

            def post(o, reuse=reuse, fn=fn):
                if reuse:
                    o.equal(o.ret, app('datum', t.SF, ZERO, ptr=True), 'given-back objects are reused before new ones are made', 'gives %s' % o.ret)
                    t.q.is_sequence(o, t.head(o, 'stack'), t.SF, [('run', ONE, t.nf)], 'a reused object leaves the free list')
                    t.q.is_sequence(o, t.head(o, 'allocated'), t.SA, [('run', ZERO, t.na)], 'every object is recorded once for the final release')
                    t.counters(o, used=1, reused=1)
                else:
                    root, idx = o.e.root_of(o.st, o.ret)
                    if root[0] != 'A' or (o.st.freed.get(root) and o.e.is_freed(o.st, root, idx)):
                        return o.fail('a new object is in nobody\'s hands', 'gives %s' % o.ret)
                    o.good('a new object is in nobody\'s hands')
                    o.must(le(t.size, o.e.objsize(o.st, root, idx)), 'objects have the requested size', 'the block has %s bytes for %s' % (o.e.objsize(o.st, root, idx), t.size))
                    t.q.is_sequence(o, t.head(o, 'stack'), t.SF, [], 'a new object is not on the free list')
                    t.q.is_sequence(o, t.head(o, 'allocated'), t.SA, [('val', o.ret), ('run', ZERO, t.na)], 'every object is recorded once for the final release')
                    t.counters(o, used=1, total=1)
                for S in (t.SF, t.SA):
                    t.q.contents_kept(o, S, 'the other objects stay where they are')
                t.q.only_freed(o, t.SA, ZERO, ZERO, 'the other objects stay where they are')
                if any(r[0] == 'P' and r[1].fn == 'datum' for r in o.st.freed):
                    o.fail('the other objects stay where they are', 'an object is released')
                if fn == 'mem_get_empty_object' and o.need(lt(t.w, t.size)):
                    v = o.e.read(o.st, add(o.ret, t.w), 1, ir.INTS[8])
                    o.must(eq(v), 'an object requested empty is all zero', 'byte %s of the object is %s' % (t.w, v), strict=True)
            ck.run(fn, e, st, [t.I], post, label=lab)

    # particular object sizes: what is made of the size must not fall short of it
    for fn in ('mem_get_object', 'mem_get_empty_object'):
        for z in (1, 5, 8, 24, 100, 1001):
            e, st = t.start()
            st.assume(eq(t.nf))
            st.assume(eq(t.size, const(z)))

            def post(o, z=z):
                root, idx = o.e.root_of(o.st, o.ret)
                if root[0] != 'A':
                    return
                n = o.e.objsize(o.st, root, idx)
                o.must(le(const(z), n), 'objects have the requested size', 'the block has %s bytes for %d' % (n, z))
            ck.run(fn, e, st, [t.I], post, label='size %d' % z)

    e, st = t.start()
    p = sym('obj', ptr=True)
    st.facts = st.facts.assume(ne(p))
    j = atom('sym', 'jj!0')
    st.facts = st.facts.with_forall(j, ZERO, t.nf, ne(app('datum', t.SF, j.lin, ptr=True), p))     # not given back already
    st.assume(lt(ZERO, t.c['used']))

    def post(o):
        t.q.is_sequence(o, t.head(o, 'stack'), t.SF, [('val', p), ('run', ZERO, t.nf)], 'a given-back object becomes available')
        t.q.is_sequence(o, t.head(o, 'allocated'), t.SA, [('run', ZERO, t.na)], 'every object is recorded once for the final release')
        for S in (t.SF, t.SA):
            t.q.contents_kept(o, S, 'the other objects stay where they are')
        if o.st.freed.get(('P', single(p))):
            o.fail('a given-back object becomes available', 'its memory is released')
        t.counters(o, used=-1)
    ck.run('mem_free_object', e, st, [t.I, p], post)
    return dict(minimum=15)
