"""The contracts of string and object memory (decided by C10, C11, C14) as models for the modules that use them."""
from spec import *
import models as MO
import text as X


def live(en, st, h, ins, what, kind):
    h = st.norm(h)
    t = st.extra.get(('mem', h))
    if t is None:
        if h is ZERO or st.decide(eq(h)) is True:
            X.raise_fault(en, st, 'null-deref', ins, '%s on a null handle' % what)
        raise GiveUp('%s on an unknown handle %s' % (what, h))
    if t[0] == 'destroyed':
        X.raise_fault(en, st, 'use-after-free', ins, '%s on a handle that was destroyed' % what)
    if t[0] != kind:
        X.raise_fault(en, st, 'wrong-handle', ins, '%s on a handle of another kind' % what)
    return h, t


def install(e, opaque_text=False):
    M = e.models

    def create(name, kind):
        def m(en, st, ins, a):
            h = en.fresh(st, name, ptr=True)
            st.facts = st.facts.assume(ne(h)) or st.facts
            st.extra[('mem', h)] = (kind, st.norm(a[0]) if a else None, ())
            en.event(st, name, list(a), h, ins)
            return h
        M[name] = m
    create('mem_create_strings', 'strings')
    create('mem_create_objects', 'objects')

    def own(st, h, t, p):
        st.extra[('mem', h)] = (t[0], t[1], t[2] + (p,)) + t[3:]

    def destroy(name, kind):
        def m(en, st, ins, a):
            h, t = live(en, st, a[0], ins, name, kind)
            for p in t[2]:
                root, idx = en.root_of(st, p)
                if not en.is_freed(st, root, idx):
                    MO.do_free(en, st, ins, p)
            st.extra[('mem', h)] = ('destroyed',)
            en.event(st, name, list(a), None, ins)
            return None
        M[name] = m
    destroy('mem_destroy_strings', 'strings')
    destroy('mem_destroy_objects', 'objects')

    def stored(en, st, ins, h, t, src, n, name):
        p = en.allocate(st, ins, add(n, ONE))
        loc = en.prog.loc(ins)
        b = X.text_of(en, st, src)
        if isinstance(b, bytes) and isconst(n) and n.c <= max(len(b), 64):
            if n.c:
                en.access(st, src, 1, ins, False)
            for i in range(n.c):
                root, idx = en.root_of(st, add(src, const(i)))
                if root in en.extents:
                    en.bounds(st, root, tuple(idx), 1, ins, False)
                en.write(st, add(p, const(i)), 1, const(((b[i] if i < len(b) else 0) ^ 128) - 128), loc)
        elif isinstance(b, Atom) and n is st.norm(strlen_of(b)):
            en.access(st, src, 1, ins, False)
            X.put(en, st, p, b, ins)
            own(st, h, t, p)
            return p
        else:
            MO.copy_n(en, st, ins, p, src, n)
        en.write(st, add(p, n), 1, ZERO, loc)
        own(st, h, t, p)
        return p

    def strncpy(en, st, ins, a):
        h, t = live(en, st, a[0], ins, 'mem_strncpy', 'strings')
        p = stored(en, st, ins, h, t, a[1], st.norm(a[2]), 'mem_strncpy')
        en.event(st, 'mem_strncpy', list(a), p, ins)
        return p
    M['mem_strncpy'] = strncpy

    def strcpy(en, st, ins, a):
        h, t = live(en, st, a[0], ins, 'mem_strcpy', 'strings')
        p = stored(en, st, ins, h, t, a[1], MO.strlen(en, st, a[1], ins), 'mem_strcpy')
        en.event(st, 'mem_strcpy', list(a), p, ins)
        return p
    M['mem_strcpy'] = strcpy

    def get(name, zero):
        def m(en, st, ins, a):
            h, t = live(en, st, a[0], ins, name, 'objects')
            pool = t[3] if len(t) > 3 else ()
            if pool:                                # one that was given back
                p = pool[-1]
                st.extra[('mem', h)] = (t[0], t[1], t[2], pool[:-1])
            else:
                p = en.allocate(st, ins, t[1])
                own(st, h, t, p)
            if zero:
                en.bulk(st, p, t[1], ('fill', ZERO), en.prog.loc(ins))
            en.event(st, name, list(a), p, ins)
            return p
        M[name] = m
    get('mem_get_object', False)
    get('mem_get_empty_object', True)

    def back(en, st, ins, a):
        h, t = live(en, st, a[0], ins, 'mem_free_object', 'objects')
        p = st.norm(a[1])
        pool = t[3] if len(t) > 3 else ()
        if p in pool:
            X.raise_fault(en, st, 'double-free', ins, 'an object is given back twice')
        st.extra[('mem', h)] = (t[0], t[1], t[2], pool + (p,))
        en.event(st, 'mem_free_object', list(a), None, ins)
        return None
    M['mem_free_object'] = back


def signature(st):
    return tuple(sorted((str(k[1]), v[0], len(v[2]) if len(v) > 2 else 0) for k, v in st.extra.items() if isinstance(k, tuple) and k[0] == 'mem'))
