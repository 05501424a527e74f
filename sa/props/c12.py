"""C12: a bad handle is diagnosed before anything is touched."""
from owners import *

# handle type -> (module, structure of the object, its magic number, the number of a destroyed one)
KINDS = {
    'hsh_HashTable': ('hash', 'table', 'HSH_MAGIC', 'HSH_MAGIC_FREED'),
    'set_Set': ('set', 'set', 'SET_MAGIC', 'SET_MAGIC_FREED'),
    'lst_List': ('list', 'list', 'LST_MAGIC', 'LST_MAGIC_FREED'),
    'mem_String': ('memory', 'stringInfo', 'MEM_STRINGS_MAGIC', 'MEM_STRINGS_MAGIC_FREED'),
    'mem_Object': ('memory', 'objectInfo', 'MEM_OBJECTS_MAGIC', 'MEM_OBJECTS_MAGIC_FREED'),
    'arg_List': ('arg', 'Arg', 'ARG_MAGIC', 'ARG_MAGIC_FREED'),
    'sl_List': ('sl', '_sl_List', 'SL_LIST_MAGIC', 'SL_LIST_MAGIC_FREED'),
}
# operations for which a null handle stands for the empty object: they return without doing anything
NULLOK = {'lst_append', 'sl_iterate', 'sl_iterate_arg', 'sl_dump', '_sl_dump'}


def run(ck):
    prog = ck.prog
    mac = macros([x for k in KINDS.values() for x in k[2:]])
    found = {k: 0 for k in KINDS}
    for key, f in sorted(prog.funcs.items()):
        if f.internal:
            continue
        types = ir.param_types(f)[1:]
        hs = [i for i, t in enumerate(types) if t in KINDS]
        for i in hs:
            kind = types[i]
            mod, tag, mg, mgf = KINDS[kind]
            found[kind] += 1
            check(ck, f, i, types, kind, mac)
    for k, v in found.items():
        ck.need(v >= 3, 'operations taking a %s' % k)
    for kind in KINDS:
        destroyed(ck, kind, mac)
    # an object of one kind, alive or destroyed, does not pass for one of another kind
    nm = 'objects of different kinds are told apart'
    where = {k: fields_of(prog, v[0], v[1])['magic'][0] for k, v in KINDS.items()}
    for k, v in KINDS.items():
        for k2, v2 in KINDS.items():
            if k == k2:
                continue
            if where[k] != where[k2]:
                ck.undecided(k, nm, 'the magic number is not in the same place as in %s' % k2)
                continue
            bad = [x for x in v2[2:] if mac[x] == mac[v[2]]]
            if bad:
                ck.violated(k, nm, '%s is the same number as %s: a %s passes for a %s' % (bad[0], v[2], k2, k), 'maa/maa.h', [], sig='%s:%s' % (k, k2))
            else:
                ck.ok(k, nm)
    return dict(minimum=80)


def check(ck, f, bad, types, kind, mac):
    mod, tag, mg, mgf = KINDS[kind]
    F = fields_of(ck.prog, mod, tag)
    ck.need('magic' in F, 'field magic of %s' % tag)
    moff = F['magic'][0]
    good = mac[mg]
    for case in ('null', 'foreign', 'destroyed'):
        e = ck.engine()
        st = e.new_state()
        if mod != 'memory':      # the element pools are handles of their own
            e.models['mem_get_object'] = e.models['mem_create_objects'] = lambda en, s2, ins, a: en.allocate(s2, ins, const(1 << 12))
        args = []
        for j, (ty, nm) in enumerate(f.params):
            p = sym('arg%d' % j, ptr=ty.k == 'ptr') if ty.k == 'ptr' else sym('arg%d' % j)
            if j == bad:
                if case == 'null':
                    args.append(ZERO)
                    continue
                p = sym('bad', ptr=True)
                st.facts = st.facts.assume(ne(p))
                m = sym('m', rng=(-(1 << 31), (1 << 31) - 1))
                if case == 'foreign':
                    st.facts = st.facts.assume(ne(m, const(sg(good))))
                    mv = m
                else:
                    mv = const(sg(mac[mgf]))
                e.regions[('P', single(p))] = lambda st2, r, ix, sz, ty2, mv=mv: mv if isconst(ix[-1]) and ix[-1].c == moff else None
                e.guards[('P', single(p))] = lambda st2, ix, sz, w: None if not w and isconst(ix[-1]) and moff <= ix[-1].c and ix[-1].c + sz <= moff + 4 else \
                    'the object is %s before its handle has been found %s' % ('released' if w == 'free' else 'changed' if w else 'read', case)
            elif types[j] in KINDS:
                # the other handles are valid
                m2, t2, g2, _ = KINDS[types[j]]
                F2 = fields_of(ck.prog, m2, t2)
                st.facts = st.facts.assume(ne(p)).assume(ne(p, sym('bad', ptr=True)))
                e.regions[('P', single(p))] = lambda st2, r, ix, sz, ty2, o2=F2['magic'][0], v2=const(sg(mac[g2])): v2 if isconst(ix[-1]) and ix[-1].c == o2 else None
            elif ty.k == 'ptr':
                st.facts = st.facts.assume(ne(p)).assume(ne(p, sym('bad', ptr=True)))
                e.fpmodels[single(p)] = callback()
            args.append(p)
        nm = 'a %s handle is reported before the object is touched' % case

        def post(o, case=case, nm=nm):
            if case == 'null' and f.name in NULLOK:
                return o.good('a null handle is an empty object')
            o.fail(nm, 'the call returns normally')

        def nr(o, what, nm=nm):
            if what == 'err_internal':
                o.good(nm)
            else:
                o.fail(nm, 'the call ends in %s, not in the internal-error report' % what)
        ck.run(f, e, st, args, post, label='%s %s' % (case, kind), on_noreturn=nr)


def destroyed(ck, kind, mac):
    """the destroy operation leaves a different magic number behind in what it releases"""
    mod, tag, mg, mgf = KINDS[kind]
    nm = 'a destroyed object no longer looks valid'
    for fn, lab, e, st, args, post, nr, marked in cases(ck):
        if marked is None or fn not in DESTROY[kind]:
            continue

        def post2(o):
            v = o.st.extra.get('magic_at_release')
            if v is None:
                return o.undec(nm, 'the handle is not released')
            o.must(ne(v, const(sg(mac[mg]))), nm, 'the released memory still carries the magic number of a valid object')
        ck.run(fn, e, st, args, post2, label='marks')


DESTROY = {'hsh_HashTable': ('hsh_destroy',), 'set_Set': ('set_destroy',), 'lst_List': ('lst_destroy',), 'mem_String': ('mem_destroy_strings',),
           'mem_Object': ('mem_destroy_objects',), 'arg_List': ('arg_destroy',), 'sl_List': ('sl_destroy',)}
