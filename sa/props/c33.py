"""C33: the concrete form of a symbol is the one registered for it."""
import hashmodel as HM
import hist as H
from spec import *

# two symbols, each given as two different copies of its text; forms
SYMS = [[sym('symbol%d%s' % (i, c), ptr=True) for c in 'ab'] for i in (1, 2)]
FORMS = [sym('form%d' % i, ptr=True) for i in (1, 2)]


def run(ck):
    e = ck.engine()
    e.use_global_init = True
    HM.install(e)
    HM.interning(e)
    e.texts = {p: c[0] for c in SYMS for p in c}
    e.distinct_keys = {c[0] for c in SYMS} | {app('interned', c[0], ptr=True) for c in SYMS} | set(FORMS) | {p for c in SYMS for p in c}
    st = e.new_state()
    for p in [p for c in SYMS for p in c] + FORMS:
        st.facts = st.facts.assume(ne(p))

    def register(i):
        def judge(o, ghost, evs, noret):
            if noret is not None:
                o.fail('registering a symbol returns', 'ends in %s' % noret)
                return None
            nm = 'the table keeps copies, not the strings of the caller'
            for ev in evs:
                if ev.name == 'hsh_insert':
                    own = [x for x in ev.args[1:] if o.st.norm(x) in (SYMS[i][0], FORMS[i])]
                    (o.fail(nm, 'it keeps %s' % own) if own else o.good(nm))
            g = list(ghost)
            g[i] = True
            return tuple(g)
        # a symbol is registered once (what registering it again means is not documented)
        return ('register(%d)' % (i + 1), 'prs_register_concrete', lambda g, s2: None if g[i] else [SYMS[i][0], FORMS[i]], judge)

    def query(i, c):
        def judge(o, ghost, evs, noret):
            if noret is not None:
                o.fail('asking for a form returns', 'ends in %s' % noret)
                return None
            r = o.ret
            if not ghost[i]:
                nm = 'a symbol without a form gives NULL'
                (o.good if r is ZERO else lambda n: o.must(o.e.ptr_eq(o.st, r, ZERO), n, 'gives %s' % r))(nm)
            else:
                nm = 'a registered symbol gives its form'
                if r is FORMS[i] or r is app('interned', FORMS[i], ptr=True):
                    o.good(nm)
                elif r is ZERO or any(r is x or r is app('interned', x, ptr=True) for c2 in SYMS + [FORMS] for x in c2):
                    o.fail(nm, 'gives %s' % ('NULL' if r is ZERO else r))
                else:
                    o.undec(nm, 'gives %s' % r)
            return ghost
        return ('concrete(%d%s)' % (i + 1, 'ab'[c]), 'prs_concrete', lambda g, s2: [SYMS[i][c]], judge)
    ops = [query(i, c) for i in (0, 1) for c in (0, 1)] + [register(i) for i in (0, 1)]
    H.explore(ck, e, st, (False, False), ops, signature=lambda g, s2: (g, H.statics(e, s2), HM.tables_signature(s2)), label='concrete forms')
    return dict(minimum=8)
