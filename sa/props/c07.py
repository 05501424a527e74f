"""C07: a stack is last-in first-out."""
from seqs import *


def run(ck):
    q = Seq(ck, 'stack', 'stack', 'data', 'datum', 'prev')
    O = q.O
    ck.need('data' in O, 'field stack.data')
    K, d = sym('K', ptr=True), sym('d', ptr=True)
    S = atom('lchain', single(K))
    n = app('n', S, rng=(0, (1 << 40)))

    def start():
        e = ck.engine()
        q.install(e)
        st = e.new_state()
        obj(e, K, O, {'data': app('elem', S, ZERO)})
        st.facts = st.facts.assume(ne(K))
        small(st, n)
        return e, st

    def same(o, nm='a query changes nothing'):
        q.is_sequence(o, o.fld(K, O, 'data'), S, [('run', ZERO, n)], nm)
        q.contents_kept(o, S, nm)
        q.only_freed(o, S, ZERO, ZERO, nm)

    e, st = start()

    def post(o):
        p = o.ret
        o.must(ne(p), 'create gives a stack')
        (o.good if o.isnull(o.fld(p, O, 'data')) else lambda z: o.fail(z, 'the top is %s' % o.fld(p, O, 'data')))('a new stack is empty')
    ck.run('stk_create', e, st, [], post)

    e, st = start()

    def post(o):
        q.is_sequence(o, o.fld(K, O, 'data'), S, [('val', d), ('run', ZERO, n)], 'push adds one element on top')
        q.contents_kept(o, S, 'other elements keep their data')
        q.only_freed(o, S, ZERO, ZERO, 'other elements keep their data')
    ck.run('stk_push', e, st, [K, d], post)

    e, st = start()

    def post(o):
        if o.need(eq(n)):
            o.must(eq(o.ret), 'popping an empty stack gives NULL', 'gives %s' % o.ret)
            return same(o, 'popping an empty stack changes nothing')
        o.equal(o.ret, app('datum', S, ZERO, ptr=True), 'pop gives the datum pushed last', 'gives %s' % o.ret)
        q.is_sequence(o, o.fld(K, O, 'data'), S, [('run', ONE, n)], 'pop removes exactly the top element')
        q.contents_kept(o, S, 'other elements keep their data')
        q.only_freed(o, S, ZERO, ONE, 'exactly the removed element is released')
    ck.run('stk_pop', e, st, [K], post)

    e, st = start()

    def post(o):
        same(o)
        if o.need(eq(n)):
            o.must(eq(o.ret), 'top of an empty stack is NULL', 'gives %s' % o.ret)
        else:
            o.equal(o.ret, app('datum', S, ZERO, ptr=True), 'top is the datum pushed last', 'gives %s' % o.ret)
    ck.run('stk_top', e, st, [K], post)

    e, st = start()

    def post(o):
        same(o)
        if o.need(eq(n)):
            o.must(ne(o.ret), 'an empty stack is reported as empty', 'gives %s' % o.ret)
        else:
            o.must(eq(o.ret), 'a stack with elements is not reported as empty', 'gives %s' % o.ret)
    ck.run('stk_isempty', e, st, [K], post)
    return dict(minimum=10)
