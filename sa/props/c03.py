"""C03: a set holds exactly the elements inserted and not deleted."""
from tableops import *


def run(ck):
    ht = HT(ck, 'set', 'set', 'bucket', 'elem', ['elem'], 'SET_MAGIC')
    table_ops(ck, ht, dict(create='set_create', insert='set_insert', delete='set_delete', lookup='set_member'), found='flag')
    # set_count
    e = ck.engine()
    ht.install(e)
    st = e.new_state()
    t = ht.table(e, st, 'T')

    def post(o):
        r = t.untouched(o)
        (o.good if r else lambda n: o.fail(n, 'the set is changed'))('counting keeps the contents')
        o.must(eq(app('trunc', t.ent, const(32)) if False else o.ret, small(o, t.ent)), 'the entry count is exact', 'set_count gives %s' % o.ret)

    def small(o, x):
        o.st.facts = o.st.facts.assume(lt(x, const(1 << 31))) or o.st.facts
        return x
    st.assume(lt(t.ent, const(1 << 31)))
    ck.run('set_count', e, st, [t.T], post)
    return dict(minimum=20)
