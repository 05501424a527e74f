"""Abstract interpreter over LLVM IR.

Heap abstraction: every object is a root with an index vector (parameters,
element index, byte offset); the contents of a root are its initial contents
plus a log of (possibly quantified, possibly guarded) updates.  Loops are
summarised by inferring a parametric invariant state G(m) from the first
iterations and checking it inductive; variables for which no invariant is found
are havocked (and any verdict depending on them is 'undecided')."""
import sys, os, itertools
import ir as IR
from terms import *
from terms import _eqn, _anyptr
from facts import Facts, match_var

sys.setrecursionlimit(20000)


class NeedSplit(Exception):
    def __init__(s, cond):
        s.cond = cond


class GiveUp(Exception):
    pass


class Entry:
    """for all binders (under guard): mem[root][idx] (size bytes) := val"""
    __slots__ = ('binders', 'guard', 'idx', 'size', 'val', 'loc')

    def __init__(s, binders, guard, idx, size, val, loc):
        s.binders, s.guard, s.idx, s.size, s.val, s.loc = binders, guard, idx, size, val, loc

    def key(s):
        return (s.binders, s.guard, s.idx, s.size, s.val)

    def map(s, f):
        return Entry(tuple((v, f(lo), f(hi)) for v, lo, hi in s.binders), f(s.guard) if s.guard is not True else True,
                     tuple(f(i) for i in s.idx), f(s.size) if isinstance(s.size, Lin) else s.size,
                     fval(f, s.val), s.loc)

    def __repr__(s):
        return '%s%s[%s]:%s := %s' % (''.join('forall %s in [%s,%s): ' % b for b in s.binders),
                                      'if %s: ' % showc(s.guard) if s.guard is not True else '',
                                      ', '.join(map(str, s.idx)), s.size, show(s.val) if not isinstance(s.val, bool) else s.val)


def fval(f, v):
    return v if v is None else f(v)


class Ev:
    __slots__ = ('name', 'args', 'ret', 'loc', 'stack')

    def __init__(s, name, args, ret, loc, stack=()):
        s.name, s.args, s.ret, s.loc, s.stack = name, args, ret, loc, stack

    def map(s, f):
        return Ev(s.name, tuple(f(a) for a in s.args), fval(f, s.ret), s.loc, s.stack)

    def key(s):
        return ('ev', s.name, s.args, s.ret)

    def __repr__(s):
        return '%s(%s)%s' % (s.name, ', '.join(map(show, s.args)), '' if s.ret is None else ' -> %s' % show(s.ret))


class EvFor:
    __slots__ = ('var', 'lo', 'hi', 'body')

    def __init__(s, var, lo, hi, body):
        s.var, s.lo, s.hi, s.body = var, lo, hi, body

    def map(s, f):
        return EvFor(s.var, f(s.lo), f(s.hi), tuple(e.map(f) for e in s.body))

    def key(s):
        return ('for', s.var, s.lo, s.hi, tuple(e.key() for e in s.body))

    def __repr__(s):
        return 'for %s in [%s,%s) %s' % (s.var, s.lo, s.hi, list(s.body))


class EvIf:
    __slots__ = ('cond', 'a', 'b')

    def __init__(s, cond, a, b):
        s.cond, s.a, s.b = cond, a, b

    def map(s, f):
        return EvIf(f(s.cond), tuple(e.map(f) for e in s.a), tuple(e.map(f) for e in s.b))

    def key(s):
        return ('if', s.cond, tuple(e.key() for e in s.a), tuple(e.key() for e in s.b))

    def __repr__(s):
        return 'if %s %s else %s' % (showc(s.cond), list(s.a), list(s.b))


class Frame:
    __slots__ = ('f', 'env', 'blk', 'prev', 'ip', 'call', 'uid')

    def copy(s):
        n = Frame()
        n.f, n.env, n.blk, n.prev, n.ip, n.call, n.uid = s.f, dict(s.env), s.blk, s.prev, s.ip, s.call, s.uid
        return n


class State:
    __slots__ = ('frames', 'facts', 'log', 'freed', 'events', 'ctr', 'path', 'taint', 'errs', 'retval', 'term', 'extra')

    def copy(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.facts = s.facts
        n.log = dict(s.log)
        n.freed = dict(s.freed)
        n.events, n.path, n.taint, n.errs = s.events, s.path, s.taint, s.errs
        n.ctr = dict(s.ctr)
        n.retval, n.term = s.retval, s.term
        n.extra = dict(s.extra)
        return n

    # ---------------- facts
    def norm(s, x):
        if isinstance(x, bool) or x is None:
            return x
        x = s.facts.norm(x)
        if isinstance(x, Lin):
            for a, k in x.t:
                if a.fn == 'ite':
                    c = s.facts.norm(a.args[0])
                    r = s.facts.decide(c)
                    if r is not None:
                        return s.norm(add(sub(x, mul(a.lin, k)), a.args[1] if r else a.args[2], k))
        return x

    def decide(s, c):
        return s.facts.decide(c)

    def need(s, c):
        """decide or split"""
        r = s.facts.decide(c)
        if r is None:
            raise NeedSplit(s.facts.norm(c))
        return r

    def assume(s, c):
        """in place; False if contradictory"""
        c = s.norm(c)
        if c is True:
            return True
        if c is False:
            return False
        if s.facts.decide(c) is True:
            return True
        f = s.facts.assume(c)
        if f is None:
            return False
        s.facts = f
        s.path = s.path + (c,)
        for a in (c[1] if c[0] == 'and' else (c,)):
            if a[0] in ('eq', 'ne', 'le'):
                if not s._string_axiom(a):
                    return False
        return True

    def _string_axiom(s, c):
        for a, k in c[1].t:
            if a.fn == 'char':
                S, i = a.args
                L = strlen_of(S)
                i = s.norm(i)
                if c[0] == 'eq' and len(c[1].t) == 1 and c[1].c == 0:
                    if s.decide(le(i, L)) is True:
                        f = s.facts.assume(eq(i, L))
                        if f is None:
                            return False
                        s.facts = f
                elif s.decide(ne(a.lin)) is True and s.decide(le(i, L)) is True:
                    f = s.facts.assume(lt(i, L))
                    if f is None:
                        return False
                    s.facts = f
        return True


def strlen_of(S):
    """length of the NUL-terminated string whose content id is atom S"""
    return app('strlen', S)


class Engine:
    def __init__(s, prog, spec=None):
        s.prog = prog
        s.models = {}
        s.fpmodels = {}          # atom -> handler for opaque function pointers
        s.regions = {}           # root -> handler(st, idx, size, ty) giving initial contents
        s.maxdepth = 24
        s.sel_hook = None
        s.array_hook = None
        s.pending = []
        s.uid = itertools.count()
        s.notes = {}             # undecided loops etc.
        s.steps = 0
        s.budget = 200000
        s.stats = {'paths': 0, 'loops': 0, 'loops_exact': 0, 'loops_havoc': 0, 'calls_inlined': 0, 'splits': 0, 'functions': set()}
        s.trace = bool(os.environ.get('VERIF_TRACE'))
        s.inline_only = None
        s.check_bounds = False
        s.safe = set()           # externals a check declares to be without effect on memory
        s.guards = {}            # root -> f(st, idx, size, write) -> message if this access is forbidden
        s.extents = {}           # root -> number of readable bytes
        s.literals = {}          # pointer atom -> the text it points to
        s.global_word = None
        s.noreturn_names = {'exit', '_exit', 'abort', '__assert_fail', 'err_fatal', 'err_fatal_errno', 'err_internal', '_Exit'}
        import models
        models.install(s)

    # ------------------------------------------------------------- addresses
    def root_of(s, st, p):
        """Lin pointer -> (root, idxvec) ; raises NeedSplit / GiveUp"""
        p = st.norm(p)
        ptrs = [a for a, k in p.t if (a.isptr or a.fn == 'sel') and k == 1]
        if len(ptrs) != 1:
            for a, k in p.t:
                if a.fn == 'ite':
                    raise NeedSplit(st.norm(a.args[0]))
            if not p.t:
                return ('NULL',), (p,)
            if not ptrs:
                # an integer-typed opaque value used as pointer
                c = [a for a, k in p.t if k == 1 and a.fn in ('mem', 'sym', 'ret', 'undef', 'hv')]
                if len(c) == 1:
                    ptrs = c
                elif all(k != 1 for a, k in p.t):
                    return ('NULL',), (p,)       # an offset from the null pointer
                else:
                    raise GiveUp('address %s' % p)
            else:
                raise GiveUp('address %s' % p)
        a = ptrs[0]
        off = sub(p, a.lin)
        if a.fn == 'ite':
            raise NeedSplit(st.norm(a.args[0]))
        if a.fn == 'elem':
            S, i = a.args
            cst = tuple(x for x in S.args if not isinstance(x, Lin))
            par = tuple(x for x in S.args if isinstance(x, Lin))
            return ('E', S.fn) + cst, par + (i, off)
        if a.fn == 'alloc':
            return ('A', a.args[0]), (a.args[1], off)
        if a.fn == 'glob':
            return ('G', a.args[0]), (off,)
        if a.fn == 'nptr':           # named region with integer parameters
            cst = tuple(x for x in a.args if not isinstance(x, Lin))
            par = tuple(x for x in a.args if isinstance(x, Lin))
            return ('N',) + cst, par + (off,)
        if a.fn == 'fn':
            return ('F', a.args[0]), (off,)
        return ('P', a), (off,)

    # ------------------------------------------------------------- memory
    def match(s, st, e, idx, size):
        """None: no match; (subst dict): match ; raises NeedSplit when unknown"""
        m = {}
        ei = e.idx
        if e.binders:
            pend = dict((v, (lo, hi)) for v, lo, hi in e.binders)
            for comp, target in zip(ei, idx):
                vs = [v for v in pend if v not in m and v in deep_atoms(comp)]
                if len(vs) == 1:
                    c2 = subst(comp, m) if m else comp
                    k = dict(c2.t).get(vs[0])
                    rest = sub(c2, mul(vs[0].lin, k)) if k else None
                    if k and vs[0] not in deep_atoms(rest):
                        d = st.norm(sub(target, rest))
                        if k in (1, -1):
                            m[vs[0]] = mul(d, k)
                        elif all(x % k == 0 for _, x in d.t) and d.c % k == 0:
                            m[vs[0]] = mklin(d.c // k, tuple((x, y // k) for x, y in d.t))
                        elif all(x % k == 0 for _, x in d.t):
                            # residue differs: different field of an array-of-struct pattern
                            return None
                        else:
                            raise Unresolved()
            if any(v not in m for v in pend):
                for comp, target in zip(ei, idx):
                    vs = [v for v in pend if v not in m and v in deep_atoms(comp)]
                    if len(vs) < 2:
                        continue
                    for v, x in solve_nested(st, subst(comp, m) if m else comp, st.norm(target), vs).items():
                        m[v] = x
            if any(v not in m for v in pend):
                raise Unresolved()
            conds = []
            for v, lo, hi in e.binders:
                x = m[v]
                conds += [le(subst(lo, m), x), lt(x, subst(hi, m))]
            ei = tuple(subst(c, m) for c in ei)
        else:
            conds = []
        if e.guard is not True:
            conds.append(subst(e.guard, m) if m else e.guard)
        unk = []
        for c in conds:
            r = st.decide(c)
            if r is False:
                return None
            if r is None:
                unk.append(st.norm(c))
        for a, b in list(zip(ei, idx))[:-1]:
            d = st.norm(sub(a, b))
            if not d.t:
                if d.c:
                    return None
                continue
            r = st.decide(eq(d))
            if r is False:
                return None
            if r is None:
                unk.append(eq(d))
        a, b = ei[-1], idx[-1]
        d = st.norm(sub(b, a))           # read position relative to the write
        es = e.size
        if isinstance(es, Lin):          # bulk write of es bytes
            lo = st.decide(le(ZERO, d))
            hi = st.decide(le(add(d, const(size)), es))
            if lo is False or hi is False:
                # fully outside?
                if st.decide(le(add(d, const(size)), ZERO)) is True or st.decide(le(es, d)) is True:
                    return None
                raise Unresolved()
            if lo is None:
                unk.append(le(ZERO, d))
            if hi is None:
                unk.append(le(add(d, const(size)), es))
        elif not d.t:
            if d.c == 0 and es == size:
                pass
            elif d.c >= es or d.c <= -size:
                return None
            else:
                raise Unresolved()
        else:
            r = st.decide(eq(d))
            if r is False:
                if es == size and all(k % size == 0 for _, k in d.t) and d.c % size == 0:
                    return None
                if es == 1 and size == 1:
                    return None
                if st.decide(le(const(es), d)) is True or st.decide(le(d, const(-size))) is True:
                    return None
                if all(k % 8 == 0 for _, k in d.t):
                    return None
                raise Unresolved()
            if r is None:
                unk.append(eq(d))
        if unk:
            raise NeedSplit(unk[0])
        return m

    def read(s, st, p, size, ty=None, quiet=False):
        root, idx = s.root_of(st, p)
        return s.read_at(st, root, idx, size, ty)

    def read_at(s, st, root, idx, size, ty=None):
        idx = tuple(st.norm(i) for i in idx)
        if s.array_hook is not None and root[0] == 'A' and size == 8 and s.is_array(st, root, idx):
            v = s.array_hook(st, root, idx, ty)
            if v is not None:
                return v
        for e in reversed(st.log.get(root, ())):
            try:
                m = s.match(st, e, idx, size)
            except Unresolved:
                return s.unresolved(st, root, idx, size, ty)
            except NeedSplit as ns:
                if s.sel_hook:
                    v = s.sel_hook(st, root, idx, size, ty, e, ns)
                    if v is not None:
                        return v
                raise
            if m is None:
                continue
            v = e.val
            if isinstance(v, tuple) and v and v[0] == 'copy':      # bulk copy from another place
                _, sroot, sidx, snap = v
                d = sub(idx[-1], subst(e.idx[-1], m))
                src = State()
                src2 = st.copy()
                src2.log = dict(st.log)
                src2.log[sroot] = snap
                si = tuple(subst(x, m) for x in sidx)
                return s.read_at(src2, sroot, si[:-1] + (add(si[-1], d),), size, ty)
            if isinstance(v, tuple) and v and v[0] == 'fill':
                b = v[1]
                if size == 1:
                    return b
                if b is ZERO:
                    return ZERO
                return s.unresolved(st, root, idx, size, ty)
            if isinstance(v, tuple) and v and v[0] == 'havoc':
                return s.havoc(st, 'hv', v[1], root, *idx, ptr=ty is not None and ty.k == 'ptr')
            if m:
                v = subst(v, m)
            return st.norm(v)
        return st.norm(s.initial(st, root, idx, size, ty))

    def unresolved(s, st, root, idx, size, ty):
        return s.havoc(st, 'hv', 'unresolved', root, *idx, ptr=ty is not None and ty.k == 'ptr')

    def havoc(s, st, *args, ptr=False):
        k = next(s.uid)
        return app(args[0], *(tuple(str(a) if not isinstance(a, (Lin, str, int)) else a for a in args[1:]) + (k,)), ptr=ptr or None)

    def initial(s, st, root, idx, size, ty):
        h = s.regions.get(root) or s.regions.get(root[:2])
        if h is not None:
            v = h(st, root, idx, size, ty)
            if v is not None:
                return v
        isptr = ty is not None and ty.k == 'ptr'
        if root[0] == 'G' and s.global_word is not None:
            v = s.global_word(st, root, idx, size, ty)
            if v is not None:
                return v
        if root[0] == 'G':
            v = s.global_init(st, root, idx, size, ty)
            if v is not None:
                return v
            if root[1] in s.notes.get('rootsyms', ()):
                pass
            return app('gmem', root[1], *idx, size, ptr=isptr, rng=tyrange(ty))
        if root[0] == 'A':
            return app('undef', root[1], *idx, size, ptr=isptr)
        if root[0] == 'P':
            if size == 1 and not isptr:
                return s.char_at(st, root[1], idx[0])
            return app('mem', root[1], idx[0], size, ptr=isptr, rng=None)
        return app('mem', str(root), *idx, size, ptr=isptr, rng=None)

    def char_at(s, st, S, i):
        i = st.norm(i)
        if S in s.literals and isconst(i):
            b = s.literals[S]
            return const((b[i.c] ^ 128) - 128) if 0 <= i.c < len(b) else ZERO
        L = strlen_of(S)
        if st.decide(eq(i, L)) is True:
            return ZERO
        return app('char', S, i)

    def global_init(s, st, root, idx, size, ty):
        g = s.globobj.get(root[1]) if hasattr(s, 'globobj') else None
        if g is None or g.external:
            return None
        if not g.const and not getattr(s, 'use_global_init', False):
            return None
        off = idx[0]
        if g.init is None:
            return None
        if isconst(off):
            return s.const_read(st, g, off.c, size)
        # symbolic index into a constant table
        return app('gtab', root[1], off, size, ptr=ty is not None and ty.k == 'ptr', rng=s.table_range(g, size))

    def table_range(s, g, size):
        if size > 4 and size != 8:
            return None
        try:
            n = g.mod.size(g.ty)
            vs = []
            for o in range(0, n, size):
                v = s._const(g.mod, g.ty, g.init, o, size)
                if v is None or not isinstance(v, int):
                    return None
                vs.append(v)
            return (min(vs), max(vs))
        except Exception:
            return None

    def const_read(s, st, g, off, size):
        v = s._const(g.mod, g.ty, g.init, off, size)
        if v is None:
            return None
        if isinstance(v, int):
            return const(v)
        return s.constval(st, g.mod, v[0], v[1])

    def _const(s, mod, ty, init, off, size):
        """int, ('ty','val') or None"""
        ty = mod.rt(ty)
        n = mod.size(ty)
        if off < 0 or off + size > n:
            return None
        if init[0] == 'zero' or init[0] == 'null':
            return 0
        if init[0] == 'undef':
            return None
        if init[0] == 'str':
            b = init[1][off:off + size]
            v = int.from_bytes(b, 'little', signed=True)
            return v
        if init[0] == 'arr':
            es = mod.size(ty.elem)
            k = off // es
            return s._const(mod, ty.elem, init[1][k][1], off - k * es, size)
        if init[0] == 'struct':
            for k in range(len(ty.fields)):
                o = mod.offset(ty, k)
                fs = mod.size(ty.fields[k])
                if o <= off < o + fs:
                    return s._const(mod, ty.fields[k], init[1][k][1], off - o, size)
            return 0
        if off == 0 and size == n:
            if init[0] == 'int':
                return init[1]
            return (ty, init)
        if init[0] == 'int':
            return None
        return None

    def write(s, st, p, size, v, loc):
        root, idx = s.root_of(st, p)
        idx = tuple(st.norm(i) for i in idx)
        s.write_at(st, root, idx, size, v, loc)

    def write_at(s, st, root, idx, size, v, loc):
        if s.array_hook is not None and root[0] == 'A' and size == 8 and s.is_array(st, root, idx):
            s.inst(st, ('ver', root))
        log = st.log.get(root, ())
        for k in range(len(log) - 1, -1, -1):
            e = log[k]
            if not e.binders and e.guard is True and e.size == size and (e.idx == idx or tuple(st.norm(i) for i in e.idx) == idx):
                log = log[:k] + log[k + 1:]
                break
        st.log[root] = log + (Entry((), True, idx, size, v, loc),)

    def bulk(s, st, p, nbytes, val, loc):
        root, idx = s.root_of(st, p)
        idx = tuple(st.norm(i) for i in idx)
        st.log[root] = st.log.get(root, ()) + (Entry((), True, idx, nbytes, val, loc),)

    # ---- liveness
    def is_freed(s, st, root, idx):
        for e in reversed(st.freed.get(root, ())):
            m = s.match(st, e, tuple(idx[:-1]) + (ZERO,), 1)
            if m is not None:
                return e
        return None

    def access(s, st, p, size, ins, write):
        """address checks: NULL, freed.  Returns (root, idx)"""
        p = st.norm(p)
        # opaque may-be-null pointers: dereference of a value not known to be non-null
        root, idx = s.root_of(st, p)
        if root[0] == 'NULL':
            return s.fault(st, 'null-deref', ins, 'access through a null pointer')
        if root[0] == 'E':
            a = [x for x, k in p.t if x.fn == 'elem'][0]
            c = lt(a.args[1], app('n', a.args[0]))
            r = st.decide(c)
            if r is False:
                return s.fault(st, 'null-deref', ins, 'access past the last element (null) of a list: %s' % p)
            if r is None:
                raise NeedSplit(st.norm(c))
        elif root[0] == 'P':
            a = root[1]
            if a.fn == 'undef' or a.fn == 'hv':
                st.taint = st.taint + ('deref of unknown pointer %s at %s' % (a, s.prog.loc(ins)),) if a.fn == 'hv' else st.taint
                if a.fn == 'undef':
                    return s.fault(st, 'uninit', ins, 'dereference of an uninitialised pointer %s' % a)
            else:
                if not s.nonnull(st, a):
                    r = st.decide(eq(a.lin))
                    if r is True:
                        return s.fault(st, 'null-deref', ins, 'access through a null pointer')
                    if r is None and s.maynull(a):
                        raise NeedSplit(st.norm(eq(a.lin)))
        if st.freed.get(root):
            e = s.is_freed(st, root, idx)
            if e is not None:
                return s.fault(st, 'use-after-free', ins, '%s of %s, freed at %s' % ('write' if write else 'read', p, e.loc))
        if root in s.guards:
            m = s.guards[root](st, idx, size, write)
            if m:
                return s.fault(st, 'forbidden access', ins, m)
        if (s.check_bounds and root[0] in 'AG') or root in s.extents:
            s.bounds(st, root, idx, size, ins, write)
        return root, idx

    def bounds(s, st, root, idx, size, ins, write):
        sz = s.extents[root] if root in s.extents else s.objsize(st, root, idx)
        if sz is None:
            return
        off = idx[-1]
        for c in (le(ZERO, off), le(add(off, const(size)), sz)):
            r = st.decide(c)
            if r is None and not any(x.fn in ('hv', 'trunc', 'and', 'or', 'shl', 'lshr', 'mul', 'uns', 'strlenx') for x in deep_atoms((off, sz))):
                raise NeedSplit(st.norm(c))
            if r is False or r is None:
                s.softerr(st, 'bounds' if r is False else 'bounds?', ins, '%s of %d byte(s) at offset %s of an object of %s bytes' % ('write' if write else 'read', size, off, sz))
                return

    def objsize(s, st, root, idx):
        """size of allocated object"""
        if root[0] == 'G':
            g = s.globobj.get(root[1])
            return const(g.mod.size(g.ty)) if g is not None and not g.external else None
        r = ('SZ',) + root
        for e in reversed(st.log.get(r, ())):
            try:
                m = s.match(st, e, tuple(idx[:-1]) + (ZERO,), 1)
            except (NeedSplit, Unresolved):
                return None
            if m is not None:
                return st.norm(subst(e.val, m) if m else e.val)
        return None

    def is_array(s, st, root, idx):
        z = s.objsize(st, root, idx)
        return z is not None and not isconst(z)

    def has_havoc(s, x):
        return any(a.fn in ('hv',) for a in deep_atoms(x))

    maynull_syms = ()

    def maynull(s, a):
        """opaque pointers that the caller may legitimately leave null"""
        return a in s.maynull_syms

    def nonnull(s, st, a):
        return a.fn in ('alloc', 'glob', 'fn', 'nptr')

    def fault(s, st, kind, ins, msg):
        st.errs = st.errs + ((kind, s.prog.loc(ins), msg, s.callstack(st)),)
        raise Fault(kind)

    def softerr(s, st, kind, ins, msg):
        """an obligation that fails here; recorded as its own terminal state, the analysis goes on"""
        n = st.copy()
        n.errs = st.errs + ((kind, s.prog.loc(ins), msg, s.callstack(st)),)
        n.term = 'soft:' + kind
        s.pending.append(n)

    def oblige(s, st, c, kind, ins, msg):
        """c must hold here"""
        c = st.norm(c)
        r = st.decide(c)
        if r is None:
            raise NeedSplit(c)
        if r is False:
            s.softerr(st, kind, ins, msg)
        return r

    def callstack(s, st):
        return ' < '.join(fr.f.name for fr in reversed(st.frames))

    # ------------------------------------------------------------- values
    def globkey(s, g):
        return g.mod.name + ':' + g.name if g.internal else g.name

    def constval(s, st, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty is not None and ty.k == 'int' and ty.n == 1:
                return v[1] != 0
            return const(v[1])
        if k == 'null':
            return ZERO
        if k == 'zero':
            if ty is not None and mod.rt(ty).k in ('int', 'ptr'):
                return ZERO
            return ('agg', {})
        if k == 'glob':
            return s.globaddr(mod, v[1])
        if k == 'undef':
            return app('undef', 'const', 0, 0)
        if k == 'fp':
            return app('fp', v[1])
        if k == 'gep':
            base = s.constval(st, mod, None, v[2])
            return s.gep(st, mod, v[1], base, [(t, s.constval(st, mod, t, x)) for t, x in v[3]])
        if k == 'cast':
            return s.constval(st, mod, v[2], v[3])
        raise GiveUp('const %r' % (v,))

    def globaddr(s, mod, name):
        f = s.prog.resolve(mod, name)
        if f is not None:
            return app('fn', f.key)
        g = s.prog.glob(mod, name)
        if g is None:
            return app('fn', name)
        if not hasattr(s, 'globobj'):
            s.globobj = {}
        key = s.globkey(g)
        s.globobj[key] = g
        return app('glob', key)

    def val(s, st, ins, v, ty=None):
        if v[0] == 'reg':
            return st.frames[-1].env[v[1]]
        return s.constval(st, ins.fn.mod, ty, v)

    def lin(s, st, x):
        """integer value"""
        if isinstance(x, Lin):
            return st.norm(x)
        if x is True or x is False or (isinstance(x, tuple) and x and x[0] in ('le', 'eq', 'ne', 'and', 'or')):
            r = st.decide(x)
            if r is True:
                return ONE
            if r is False:
                return ZERO
            return is01(st.norm(x))
        raise GiveUp('value %r' % (x,))

    def cond(s, st, x):
        if isinstance(x, Lin):
            x = st.norm(x)
            if isconst(x):
                return x.c != 0
            return ne(x)
        return x

    def gep(s, st, mod, ety, base, idx):
        if not isinstance(base, Lin):
            base = s.lin(st, base)
        t, i0 = idx[0]
        r = add(base, mul(s.lin(st, i0) if not isinstance(i0, Lin) else i0, mod.size(ety)))
        ty = mod.rt(ety)
        for t, i in idx[1:]:
            i = i if isinstance(i, Lin) else s.lin(st, i)
            if ty.k == 'struct':
                r = add(r, const(mod.offset(ty, i.c)))
                ty = mod.rt(ty.fields[i.c])
            else:
                r = add(r, mul(i, mod.size(ty.elem)))
                ty = mod.rt(ty.elem)
        return r

    # comparisons of pointers understood structurally
    def ptr_eq(s, st, a, b):
        d = st.norm(sub(a, b))
        if not d.t:
            return d.c == 0
        for x, k in d.t:
            if x.fn == 'ite':
                ys = [s.ptr_eq(st, add(sub(d, mul(x.lin, k)), y, k), ZERO) if abs(k) == 1 and len(d.t) == 1 and d.c == 0 else None for y in x.args[1:]]
                if None not in ys:
                    return disj(conj(x.args[0], ys[0]), conj(neg(x.args[0]), ys[1]))
                raise NeedSplit(st.norm(x.args[0]))
        pos = [(x, k) for x, k in d.t if x.isptr]
        els = [x for x, k in pos if x.fn == 'elem']
        if not els and len(pos) < 2:
            # base pointer vs NULL-ish
            if len(pos) == 1 and pos[0][0].fn in ('alloc', 'glob', 'fn', 'nptr') and len(d.t) == 1 and d.c == 0:
                return False
            return eq(d)
        A = st.norm(a)
        B = st.norm(b)
        if isconst(A):
            A, B = B, A
        ea = [x for x, k in A.t if x.fn == 'elem']
        eb = [x for x, k in B.t if x.fn == 'elem']
        if isconst(B):
            if B.c == 0 and len(A.t) == 1 and A.c == 0 and len(ea) == 1:
                S, i = ea[0].args
                return le(app('n', S), i)
            if len(ea) == 1 and B.c == 0:
                return False
            return eq(d)
        if len(ea) == 1 and len(eb) == 1 and single(A) and single(B):
            S, i = ea[0].args
            T, j = eb[0].args
            nulls = conj(le(app('n', S), i), le(app('n', T), j))
            if S is T:
                return disj(eq(i, j), nulls)
            if S.fn == T.fn and len(S.args) == len(T.args) and all(x is y for x, y in zip(S.args, T.args) if not isinstance(x, Lin)):
                return disj(conj(*([eq(x, y) for x, y in zip(S.args, T.args) if isinstance(x, Lin)] + [eq(i, j)])), nulls)
            return nulls
        # distinct allocated bases are distinct
        bases = [x for x, k in pos]
        if len(pos) == 2:
            x, y = bases
            fx, fy = x.fn, y.fn
            if {fx, fy} <= {'alloc', 'glob', 'fn', 'nptr', 'elem'}:
                if fx != fy:
                    e = x if fx == 'elem' else y if fy == 'elem' else None
                    if e is None or (sub(d, add(mul(x.lin, dict(d.t)[x]), mul(y.lin, dict(d.t)[y]))).t == ()):
                        return False
                elif fx in ('glob', 'fn'):
                    return False
                elif fx == 'alloc' and x.args[0] != y.args[0]:
                    return False
                elif fx == 'alloc':
                    return eq(x.args[1], y.args[1])
            if s.fresh_vs_opaque(x, y) or s.fresh_vs_opaque(y, x):
                return False
        return eq(d)

    def fresh_vs_opaque(s, x, y):
        return x.fn in ('alloc',) and y.fn in ('sym', 'elem', 'mem', 'gmem', 'nptr')

    def icmp(s, st, pred, ty, a, b):
        if ty.k == 'int' and ty.n == 1:
            ca, cb = s.cond(st, a), s.cond(st, b)
            if cb is True or cb is False:
                r = ca if cb else neg(ca)
                return r if pred == 'eq' else neg(r)
            x = disj(conj(ca, cb), conj(neg(ca), neg(cb)))
            return x if pred == 'eq' else neg(x)
        a, b = s.lin(st, a), s.lin(st, b)
        if pred in ('eq', 'ne'):
            if _anyptr(a) or _anyptr(b) or ty.k == 'ptr':
                c = s.ptr_eq(st, a, b)
            else:
                c = eq(a, b)
                d = st.norm(sub(a, b))
                if len(d.t) == 1 and d.t[0][0].fn == 'b2i' and d.t[0][1] in (1, -1):
                    inner = d.t[0][0].args[0]
                    k = -d.c * d.t[0][1]
                    c = neg(inner) if k == 0 else inner if k == 1 else False
                elif len(d.t) == 1 and d.t[0][0].fn == 'ite' and d.t[0][1] in (1, -1):
                    i = d.t[0][0]
                    k = const(-d.c * d.t[0][1])
                    x1, x2 = eq(i.args[1], k), eq(i.args[2], k)
                    if (x1 is True or x1 is False) and (x2 is True or x2 is False):
                        c = disj(conj(i.args[0], x1), conj(neg(i.args[0]), x2))
            return c if pred == 'eq' else neg(c)
        if pred[0] == 'u' and ty.k != 'ptr':
            n = ty.n
            a, b = s.unsigned(st, a, n), s.unsigned(st, b, n)
        elif pred[0] == 'u':
            pass
        elif pred[0] == 's' and ty.k == 'int':
            a, b = s.signedv(st, a, ty.n), s.signedv(st, b, ty.n)
        p = pred[1:]
        if p == 'lt':
            return lt(a, b)
        if p == 'le':
            return le(a, b)
        if p == 'gt':
            return lt(b, a)
        return le(b, a)

    def unsigned(s, st, a, n):
        if isconst(a):
            return const(a.c % (1 << n))
        r = st.decide(le(ZERO, a))
        if r is True:
            return a
        if r is False:
            return add(a, const(1 << n))
        # unknown sign
        x = single(a)
        if x is not None and x.fn in ('char',) and n >= 8:
            return app('u8', a) if n == 8 else a
        if x is not None and x.fn in ('sym', 'mem', 'gmem', 'ret', 'hv', 'undef', 'trunc', 'fpx'):
            if x.rng is None and n >= 32:
                # opaque unsigned quantity
                return a if n == 64 and _anyptr(a) else app('uns', a)
        raise NeedSplit(st.norm(le(ZERO, a)))

    def signedv(s, st, a, n):
        if isconst(a):
            c = a.c % (1 << n)
            return const(c - (1 << n) if c >= 1 << (n - 1) else c)
        return a

    # ------------------------------------------------------------- binary ops
    def binop(s, st, op, ty, a, b):
        if ty.k == 'int' and ty.n == 1:
            ca, cb = s.cond(st, a), s.cond(st, b)
            if op == 'and':
                return conj(ca, cb)
            if op == 'or':
                return disj(ca, cb)
            if op == 'xor':
                if cb is True:
                    return neg(ca)
                if cb is False:
                    return ca
                return disj(conj(ca, neg(cb)), conj(neg(ca), cb))
        if ty.k != 'int':
            return app('f' + op, s.lin(st, a), s.lin(st, b))
        a, b = s.lin(st, a), s.lin(st, b)
        if op in ('and', 'or', 'xor', 'shl', 'lshr') and (isconst(b) or isconst(a)):
            r = bitop(op, a, b, ty.n)
            if r is not None:
                return r
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if isconst(b):
                return mul(a, b.c)
            if isconst(a):
                return mul(b, a.c)
            return app('mul', *sorted((a, b), key=lambda x: x.id))
        if isconst(a) and isconst(b):
            n = ty.n
            M = (1 << n) - 1
            x, y = a.c & M, b.c & M
            sx = x - (1 << n) if x >> (n - 1) else x
            sy = y - (1 << n) if y >> (n - 1) else y
            r = None
            if op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'shl' and y < n:
                r = (x << y) & M
            elif op == 'lshr' and y < n:
                r = x >> y
            elif op == 'ashr' and y < n:
                r = (sx >> y) & M
            elif op == 'udiv' and y:
                r = x // y
            elif op == 'urem' and y:
                r = x % y
            elif op == 'sdiv' and sy:
                r = int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1) & M
            elif op == 'srem' and sy:
                q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                r = (sx - q * sy) & M
            if r is not None:
                # keep sign of small operands
                return const(r - (1 << n) if (a.c < 0 or b.c < 0 or op in ('sdiv', 'srem', 'ashr')) and r >> (n - 1) else r)
        if op == 'urem':
            return mk_urem(a, b)
        if op == 'udiv':
            return mk_udiv(a, b)
        if op in ('srem', 'sdiv'):
            if st.decide(le(ZERO, a)) is True and st.decide(lt(ZERO, b)) is True:
                return mk_urem(a, b) if op == 'srem' else mk_udiv(a, b)
            if op == 'sdiv' and isconst(b) and b.c > 1 and a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
                return mklin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
            if op == 'sdiv' and isconst(b) and b.c == 1:
                return a
            return app(op, a, b)
        if op == 'shl' and isconst(b) and 0 <= b.c < ty.n:
            return mul(a, 1 << b.c)
        if op == 'lshr' and isconst(b) and st.decide(le(ZERO, a)) is True and all(abs(k) < 1 << ty.n - 1 for x, k in a.t):
            return mk_udiv(a, const(1 << b.c))
        if op == 'ashr' and isconst(b) and st.decide(le(ZERO, a)) is True:
            return mk_udiv(a, const(1 << b.c))
        if op == 'and':
            if isconst(a):
                a, b = b, a
            if isconst(b):
                if b.c == 0:
                    return ZERO
                full = (1 << ty.n) - 1
                if b.c in (-1, full):
                    return a
                if b.c > 0 and (b.c & (b.c + 1)) == 0 and st.decide(le(ZERO, a)) is True and st.decide(le(a, b)) is True:
                    return a
                x = single(a)
                if x is not None and x.fn == 'b2i':
                    return a if b.c & 1 else ZERO
                return app('and', a, b, rng=(0, b.c) if b.c > 0 else None)
            if a is b:
                return a
        if op in ('or', 'xor') and (isconst(a) or isconst(b)):
            if isconst(a):
                a, b = b, a
            if b.c == 0:
                return a
        if op == 'or' and a is b:
            return a
        if op in ('or', 'xor') and not isconst(a) and not isconst(b):
            x, y = as_bits(a, ty.n), as_bits(b, ty.n)
            if x and y and all(isinstance(i, int) and i == 0 or isinstance(j, int) and j == 0 for i, j in zip(x, y)):
                return add(a, b)
        if op == 'xor' and a is b:
            return ZERO
        if op in ('and', 'or', 'xor'):
            a, b = sorted((a, b), key=lambda x: x.id)
        return app(op, a, b)

    def cast(s, st, op, sty, dty, v):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return v
        if sty.k == 'int' and sty.n == 1 and op in ('zext', 'sext'):
            x = s.lin(st, s.cond(st, v))
            return x if op == 'zext' else mul(x, -1)
        if op == 'sext':
            v = s.lin(st, v)
            # value known to be >= 2^(n-1) (unsigned reading)?
            if isconst(v):
                return s.signedv(st, v, sty.n)
            return v
        if op == 'zext':
            v = s.lin(st, v)
            if isconst(v):
                return const(v.c % (1 << sty.n))
            x = single(v)
            if sty.n == 8:
                r = st.decide(le(ZERO, v))
                return v if r is True else app('u8', v)
            r = st.decide(le(ZERO, v))
            if r is True:
                return v
            if r is False:
                return add(v, const(1 << sty.n))
            if x is not None and x.rng is None:
                return app('uns', v) if sty.n >= 32 else app('zext', v, sty.n)
            return app('zext', v, sty.n, rng=(0, (1 << sty.n) - 1))
        if op == 'trunc':
            v = s.lin(st, v)
            n = dty.n
            if n > 1 and any(x.fn == 'bit' for x, k in v.t):
                r = as_bits(v, sty.n)
                if r is not None:
                    return from_bits(r[:n])
            if n == 1:
                return ne(app('and', v, ONE, rng=(0, 1))) if not isconst(v) else bool(v.c & 1)
            if isconst(v):
                c = v.c % (1 << n)
                return const(c - (1 << n) if c >= 1 << (n - 1) and v.c < 0 else c)
            x = single(v)
            if x is not None and x.fn == 'u8' and n >= 8:
                return x.args[0] if n == 8 else v
            if st.decide(le(const(-(1 << (n - 1))), v)) is True and st.decide(lt(v, const(1 << n))) is True:
                return v
            if x is not None and x.fn in ('zext', 'uns') and n >= 32:
                return x.args[0]
            return app('trunc', v, n, rng=(-(1 << (n - 1)), (1 << n) - 1))
        return app(op, s.lin(st, v))

    # ------------------------------------------------------------- running
    def new_state(s):
        st = State()
        st.frames = []
        st.facts = Facts()
        st.log, st.freed, st.ctr, st.extra = {}, {}, {}, {}
        st.events, st.path, st.taint, st.errs = (), (), (), ()
        st.retval = st.term = None
        return st

    def push(s, st, f, args, call):
        fr = Frame()
        fr.f = f
        fr.env = {}
        if len(args) < len(f.params):
            raise GiveUp('too few arguments for %s' % f.name)
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        fr.env['...'] = tuple(args[len(f.params):])
        fr.blk = f.order[0]
        fr.prev = None
        fr.ip = 0
        fr.call = call
        fr.uid = next(s.uid)
        st.frames.append(fr)
        s.stats['functions'].add(f.key)

    def run(s, st, fname, args):
        """all terminal states of a call; each has .term in
        ('ret', name of noreturn function, 'fault:kind', 'giveup:reason')"""
        f = s.prog.func(fname) if isinstance(fname, str) else fname
        IR.find_loops(f)
        s.partial = []          # ways to end found so far, in case the analysis does not get to its own end
        s.push(st, f, args, None)
        backs, exits, done = s.explore(st, 1, None)
        out = done + exits
        s.stats['paths'] += len(out)
        return out

    def explore(s, st0, depth, loop):
        backs, exits, done = [], [], []
        work = [st0]
        while work:
            st = work.pop()
            s.steps += 1
            if s.steps > s.budget:
                raise GiveUp('budget')
            try:
                res = s.advance(st, depth, loop)
            except GiveUp as g:
                st.term = 'giveup:%s' % g
                done.append(st)
                continue
            for kind, x in res:
                if kind == 'go':
                    work.append(x)
                elif kind == 'back':
                    backs.append(x)
                elif kind == 'exit':
                    exits.append(x)
                else:
                    done.append(x)
                    if depth == 1:
                        s.partial.append(x)
        return backs, exits, done

    def split(s, st, c):
        s.stats['splits'] += 1
        out = []
        for d in (c, neg(c)):
            n = st.copy()
            if isinstance(d, tuple) and d[0] == 'or':
                # explore each disjunct under the negation of the previous ones
                acc = n
                for x in d[1]:
                    y = acc.copy()
                    if y.assume(x):
                        out.append(y)
                    acc = acc.copy()
                    if not acc.assume(neg(x)):
                        break
                continue
            if n.assume(d):
                out.append(n)
        return out

    def advance(s, st, depth, loop):
        while True:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk].ins[fr.ip]
            try:
                r = s.step(st, fr, ins, depth, loop)
            except NeedSplit as ns:
                c = st.norm(ns.cond)
                if st.decide(c) is not None:
                    raise GiveUp('split loop on %s' % showc(c))
                return [('go', x) for x in s.split(st, c)]
            except Fault as f:
                st.term = 'fault:%s' % f.args[0]
                return [('done', st)]
            if s.pending:
                extra = [('done', x) for x in s.pending]
                s.pending = []
                return extra + (r if r is not None else [('go', st)])
            if r is not None:
                return r

    def goto(s, st, target, depth, loop):
        fr = st.frames[-1]
        f = fr.f
        src = fr.blk
        inloop = loop is not None and len(st.frames) == depth and f is loop[0]
        if inloop and target == loop[1].header:
            s.enter(st, target)
            return [('back', st)]
        loops = IR.find_loops(f)
        L = loops.get(target)
        if inloop and target not in loop[1].blocks:
            # leaving the loop under analysis; the target may itself be the
            # header of an enclosing/next loop: positioned, not entered
            fr.prev, fr.blk, fr.ip = src, target, -1
            return [('exit', st)]
        if L is not None and src not in L.blocks:
            return s.do_loop(st, target, depth, loop)
        s.enter(st, target)
        return None

    def enter(s, st, target):
        fr = st.frames[-1]
        src = fr.blk
        b = fr.f.blocks[target]
        vals = []
        for ph in b.phis:
            for v, p in ph.a[0]:
                if p == src:
                    vals.append((ph.res, s.val(st, ph, v, ph.ty)))
                    break
        for r, v in vals:
            fr.env[r] = v
        fr.prev, fr.blk, fr.ip = src, target, 0

    def resume_exit(s, st, depth, loop):
        """continue a state positioned by an inner loop's exit edge"""
        fr = st.frames[-1]
        if fr.ip == -1:
            t = fr.blk
            fr.blk = fr.prev
            r = s.goto(st, t, depth, loop)
            return r if r is not None else [('go', st)]
        return [('go', st)]

    def do_loop(s, st, header, depth, loop):
        fr = st.frames[-1]
        L = IR.find_loops(fr.f)[header]
        s.enter(st, header)
        exits, done = s.summarise(st, L)
        out = [('done', x) for x in done]
        for x in exits:
            if loop is not None and (len(x.frames) < depth):
                out.append(('exit', x))
            elif not x.frames:
                out.append(('done', x))
            else:
                out += s.resume_exit(x, depth, loop)
        return out

    # ------------------------------------------------------------- stepping
    def step(s, st, fr, ins, depth, loop):
        op = ins.op
        env = fr.env
        a = ins.a
        if op == 'br':
            if len(a) == 1:
                return s.goto(st, a[0], depth, loop)
            c = s.cond(st, s.val(st, ins, a[0], IR.INTS[1]))
            r = st.decide(c)
            if r is None:
                raise NeedSplit(st.norm(c))
            return s.goto(st, a[1] if r else a[2], depth, loop)
        if op == 'load':
            p = s.lin(st, s.val(st, ins, a[0]))
            ty = fr.f.mod.rt(ins.ty)
            size = fr.f.mod.size(ty)
            root, idx = s.access(st, p, size, ins, False)
            v = s.read_at(st, root, idx, size, ty)
            if ty.k == 'int' and ty.n == 1:
                v = s.cond(st, v)
            env[ins.res] = v
        elif op == 'store':
            v = s.val(st, ins, a[0], ins.ty)
            p = s.lin(st, s.val(st, ins, a[1]))
            if not (isinstance(v, tuple) and v and v[0] == 'agg'):
                v = s.lin(st, v)
            size = fr.f.mod.size(ins.ty)
            root, idx = s.access(st, p, size, ins, True)
            idx = tuple(st.norm(i) for i in idx)
            s.write_at(st, root, idx, size, v, s.prog.loc(ins))
            s.on_store(st, root, idx, size, v, ins)
        elif op == 'getelementptr':
            ety, base, idx = a
            env[ins.res] = s.gep(st, fr.f.mod, ety, s.val(st, ins, base), [(t, s.val(st, ins, x, t)) for t, x in idx])
        elif op == 'icmp':
            env[ins.res] = s.icmp(st, a[0], fr.f.mod.rt(a[1]), s.val(st, ins, a[2], a[1]), s.val(st, ins, a[3], a[1]))
        elif op in IR.BINOPS:
            va, vb = s.val(st, ins, a[0], ins.ty), s.val(st, ins, a[1], ins.ty)
            if s.check_bounds and op in ('shl', 'lshr', 'ashr') and isinstance(vb, Lin) and isconst(vb) and not 0 <= vb.c < ins.ty.n:
                s.softerr(st, 'shift', ins, 'shift by %d of a value of %d bits' % (vb.c, ins.ty.n))
            env[ins.res] = s.binop(st, op, ins.ty, va, vb)
        elif op in IR.CASTS:
            env[ins.res] = s.cast(st, op, a[0], ins.ty, s.val(st, ins, a[1], a[0]))
        elif op == 'call':
            return s.call(st, fr, ins, depth, loop)
        elif op == 'ret':
            v = None if a[0] is None else s.val(st, ins, a[0], ins.ty)
            return s.ret(st, v, depth, loop)
        elif op == 'alloca':
            n = s.lin(st, s.val(st, ins, a[0]))
            env[ins.res] = s.allocate(st, ins, mul(n, fr.f.mod.size(ins.ty)), stack=True)
        elif op == 'select':
            c = s.cond(st, s.val(st, ins, a[0], IR.INTS[1]))
            r = st.decide(c)
            if r is None:
                raise NeedSplit(st.norm(c))
            env[ins.res] = s.val(st, ins, a[1] if r else a[2], ins.ty)
        elif op == 'switch':
            v = s.lin(st, s.val(st, ins, a[0], ins.ty))
            if isconst(v):
                n = ins.ty.n
                for k, t in a[2]:
                    if (k - v.c) % (1 << n) == 0:
                        return s.goto(st, t, depth, loop)
                return s.goto(st, a[1], depth, loop)
            for k, t in a[2]:
                r = st.decide(eq(v, const(k)))
                if r is True:
                    return s.goto(st, t, depth, loop)
                if r is None:
                    raise NeedSplit(st.norm(eq(v, const(k))))
            return s.goto(st, a[1], depth, loop)
        elif op == 'unreachable':
            st.term = 'unreachable'
            return [('done', st)]
        elif op in ('fcmp',):
            env[ins.res] = ne(app('fcmp', a[0], s.lin(st, s.val(st, ins, a[2], a[1])), s.lin(st, s.val(st, ins, a[3], a[1])), rng=(0, 1)))
        elif op == 'fneg':
            env[ins.res] = app('fneg', s.lin(st, s.val(st, ins, a[0], ins.ty)))
        elif op == 'freeze':
            env[ins.res] = s.val(st, ins, a[0], ins.ty)
        elif op == 'extractvalue':
            v = s.val(st, ins, a[0], ins.ty)
            if isinstance(v, tuple) and v[0] == 'agg' and tuple(a[1]) in v[1]:
                env[ins.res] = v[1][tuple(a[1])]
            else:
                env[ins.res] = s.havoc(st, 'hv', 'extract')
        elif op == 'insertvalue':
            v = s.val(st, ins, a[0], ins.ty)
            d = dict(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else {}
            d[tuple(a[3])] = s.val(st, ins, a[2], a[1])
            env[ins.res] = ('agg', d)
        else:
            raise GiveUp('op ' + op)
        fr.ip += 1
        return None

    def on_store(s, st, root, idx, size, v, ins):
        pass

    def ret(s, st, v, depth, loop):
        fr = st.frames.pop()
        if not st.frames:
            st.retval = v
            st.term = 'ret'
            return [('exit', st)] if loop is not None else [('done', st)]
        c = st.frames[-1]
        if fr.call.res is not None:
            c.env[fr.call.res] = v
        c.ip += 1
        if loop is not None and len(st.frames) < depth:
            return [('exit', st)]
        return None

    def inst(s, st, key):
        k = st.ctr.get(key, ZERO)
        st.ctr[key] = add(k, ONE)
        return k

    def allocate(s, st, ins, nbytes, stack=False, site=None):
        key = site or '>'.join('%s.%s' % (s.prog.loc(fr.call), fr.call.res or '') for fr in st.frames[1:]) + '>%s#%s' % (s.prog.loc(ins), ins.res)
        k = s.inst(st, ('alloc', key))
        k = st.norm(k)
        r = ('SZ', 'A', key)
        st.log[r] = st.log.get(r, ()) + (Entry((), True, (k, ZERO), 1, st.norm(nbytes), s.prog.loc(ins)),)
        return app('alloc', key, k)

    def event(s, st, name, args, ret, ins):
        st.events = st.events + (Ev(name, tuple(st.norm(x) for x in args), ret, s.prog.loc(ins), tuple(f.f.name for f in st.frames)),)

    def fresh(s, st, name, rng=None, ptr=False, dep=()):
        """a new unknown value: numbered by a per-name counter so that it generalises over loop iterations"""
        k = s.inst(st, ('fresh', name))
        return app('ret', name, st.norm(k), *dep, rng=rng, ptr=ptr or None)

    def call(s, st, fr, ins, depth, loop):
        cal, args = ins.a
        argv = []
        for t, x in args:
            if t.k == 'metadata':
                argv.append(ZERO)
                continue
            v = s.val(st, ins, x, t)
            if isinstance(v, tuple) and v and v[0] == 'agg':
                argv.append(v)
            else:
                argv.append(s.lin(st, v) if not (t.k == 'int' and t.n == 1) else s.cond(st, v))
        target = None
        if cal[0] == 'glob':
            name = cal[1]
            target = s.prog.resolve(fr.f.mod, name)
        else:
            p = st.norm(s.val(st, ins, cal))
            x = single(p)
            name = None
            if x is not None and x.fn == 'fn':
                name = x.args[0]
                target = s.prog.funcs.get(name)
                name = name.split(':')[-1]
            elif x is not None and x.fn == 'ite':
                raise NeedSplit(st.norm(x.args[0]))
            elif x is None and isconst(p):
                return s.fault(st, 'null-call', ins, 'call through a null function pointer')
            else:
                h = s.fpmodels.get(x) or s.fpmodels.get(x.fn if x is not None else None)
                if h is None:
                    h = s.default_fp
                work = st.copy()
                return s.after(st, work, h(s, work, ins, argv, x), ins, depth, loop)
        h = s.models.get(target.key if target is not None else name) or s.models.get(name)
        if h is not None:
            work = st.copy()
            try:
                r = h(s, work, ins, argv)
            except Fault as f:
                st.errs = work.errs
                raise
            return s.after(st, work, r, ins, depth, loop)
        if name in s.noreturn_names:
            s.event(st, name, argv, None, ins)
            st.term = 'noreturn:' + name
            return [('done', st)]
        if target is not None:
            if len(st.frames) >= s.maxdepth or sum(1 for x in st.frames if x.f is target) >= 2:
                raise GiveUp('recursion at %s' % target.name)
            if getattr(s, 'skip_contained', False) and ins.ty.k == 'void':
                import effects
                memo = s.__dict__.setdefault('contained', {})
                if target.key not in memo:
                    memo[target.key] = bool(IR.find_loops(target)) and effects.contained(s.prog, target, s.noreturn_names)
                if memo[target.key]:
                    s.event(st, name, argv, None, ins)
                    work = st.copy()
                    return s.after(st, work, None, ins, depth, loop)
            IR.find_loops(target)
            s.stats['calls_inlined'] += 1
            s.push(st, target, argv, ins)
            return None
        # unknown external
        work = st.copy()
        return s.after(st, work, s.default_ext(s, work, ins, name, argv), ins, depth, loop)

    @staticmethod
    def default_ext(s, st, ins, name, argv):
        ty = ins.ty
        ret = None
        if ty.k != 'void':
            ret = s.fresh(st, name, rng=tyrange(ty), ptr=ty.k == 'ptr')
        s.event(st, name, argv, ret, ins)
        import models
        if name not in models.SAFE and name not in s.safe and any(t.k == 'ptr' for t, x in ins.a[1]):
            st.taint = st.taint + ('call of unmodelled function %s at %s' % (name, s.prog.loc(ins)),)
        return ret

    @staticmethod
    def default_fp(s, st, ins, argv, x):
        ty = ins.ty
        ret = None
        nm = 'fp:%s' % (x,)
        if ty.k != 'void':
            ret = s.fresh(st, nm, rng=tyrange(ty), ptr=ty.k == 'ptr')
        s.event(st, nm, argv, ret, ins)
        return ret

    def after(s, st, work, r, ins, depth, loop):
        """r: value, or list of (state, value) alternatives, or 'noreturn'"""
        if isinstance(r, str) and r.startswith('noreturn'):
            work.term = r
            return [('done', work)]
        if not isinstance(r, list):
            r = [(work, r)]
        out = []
        for x, v in r:
            if x.term is not None:
                out.append(('done', x))
                continue
            if ins.res is not None:
                x.frames[-1].env[ins.res] = v
            x.frames[-1].ip += 1
            out.append(('go', x))
        return out

    # ------------------------------------------------------------- loops
    MAXUNROLL = 80

    def summarise(s, st, L):
        """st is at the loop header (phis evaluated). Returns (exit states, done states)."""
        import loops
        return loops.summarise(s, st, L)


def solve_nested(st, comp, target, vs):
    """instance number y + psum(i): numbering of pairs (i, y), 0 <= y < size(i), row by row.
    The numbering is injective, so a solution within the bounds is the only one."""
    if st.norm(comp) is target:
        return {v: v.lin for v in vs}
    for a, k in comp.t:
        if a.fn != 'psum' or k != 1:
            continue
        var, body, hi = a.args
        i = single(hi)
        if i not in vs:
            continue
        for b, kb in target.t:
            if b.fn == 'psum' and kb == 1 and b.args[0] is var and b.args[1] is body:
                m = {i: b.args[2]}
                rest = subst(comp, m)
                left = [v for v in vs if v is not i]
                if len(left) == 1 and dict(rest.t).get(left[0]) == 1:
                    r2 = sub(rest, left[0].lin)
                    if left[0] not in deep_atoms(r2):
                        m[left[0]] = st.norm(sub(target, r2))
                        return m
    return {}


class Fault(Exception):
    pass


class Unresolved(Exception):
    pass


def as_bits(v, n):
    """a word written as a sum of 'bit' atoms: its n digits (0, 1 or an atom), or None"""
    r = [0] * n
    M = (1 << n) - 1
    for a, k in v.t:
        if a.fn != 'bit' or k < 0:
            return None
        i = 0
        while k:
            if k & 1:
                if i < n:
                    if r[i] != 0:
                        return None
                    r[i] = a
            k >>= 1
            i += 1
    c = v.c & M
    for i in range(n):
        if c >> i & 1:
            if r[i] != 0:
                return None
            r[i] = 1
    return r


def from_bits(r):
    d, c = {}, 0
    for i, x in enumerate(r):
        if x == 1 and not isinstance(x, Atom):
            c += 1 << i
        elif isinstance(x, Atom):
            d[x] = d.get(x, 0) + (1 << i)
    return from_dict(c, d)


def notbit(x):
    if not isinstance(x, Atom):
        return 1 - x
    if x.args[0] == 'not':
        return single(x.args[1])
    return atom('bit', 'not', x.lin, rng=(0, 1))


def bitop(op, a, b, n):
    if not any(x.fn == 'bit' for x, k in a.t) and not any(x.fn == 'bit' for x, k in b.t):
        return None
    if op in ('and', 'or', 'xor') and isconst(a):
        a, b = b, a
    if not isconst(b):
        return None
    r = as_bits(a, n)
    c = b.c & ((1 << n) - 1)
    if r is None:
        return fieldop(op, a, c, n)
    if op == 'and':
        return from_bits([r[i] if c >> i & 1 else 0 for i in range(n)])
    if op == 'or':
        return from_bits([1 if c >> i & 1 else r[i] for i in range(n)])
    if op == 'xor':
        return from_bits([notbit(r[i]) if c >> i & 1 else r[i] for i in range(n)])
    if op == 'shl' and b.c < n:
        return from_bits([0] * b.c + r[:n - b.c])
    if op == 'lshr' and b.c < n:
        return from_bits(r[b.c:] + [0] * b.c)
    return None


def split_fields(a, k):
    """a = low + 2^k * high with 0 <= low < 2^k, for a sum of weighted digits"""
    m = 1 << k
    if a.c < 0 or any(c < 0 or x.rng != (0, 1) for x, c in a.t):
        return None
    lo = [(x, c % m) for x, c in a.t if c % m]
    hi = [(x, c // m) for x, c in a.t if c // m]
    if sum(c for x, c in lo) + a.c % m >= m:
        return None
    return mklin(a.c % m, tuple(lo)), mklin(a.c // m, tuple(hi))


def fieldop(op, a, c, n):
    """shift or mask of a sum of weighted digits whose columns do not carry over the cut"""
    if any(x.rng != (0, 1) for x, k in a.t):
        return None
    a = from_dict(a.c % (1 << n), {x: k % (1 << n) for x, k in a.t if k % (1 << n)})     # the word wraps
    if a.c + sum(k for x, k in a.t) >= 1 << n:
        return None
    if op == 'lshr':
        r = split_fields(a, c) if c < n else None
        return r[1] if r else None
    if op == 'and':
        rest, out, pos = a, ZERO, 0
        while pos < n:
            bit, e = c >> pos & 1, pos
            while e < n and (c >> e & 1) == bit:
                e += 1
            if e == n:
                lo = rest
            else:
                r = split_fields(rest, e - pos)
                if r is None:
                    return None
                lo, rest = r
            if bit:
                out = add(out, mul(lo, 1 << pos))
            pos = e
        return out
    return None


def termval(v, env):
    """value of a term over digits under a valuation of the digits (None: not interpreted)"""
    t = v.c
    for x, k in v.t:
        y = env(x)
        if y is None:
            ar = [termval(z, env) if isinstance(z, Lin) else z for z in x.args]
            if any(z is None for z in ar) or any(isinstance(z, int) and z < 0 for z in ar):
                return None
            f = x.fn
            if f == 'and':
                y = ar[0] & ar[1]
            elif f == 'or':
                y = ar[0] | ar[1]
            elif f == 'xor':
                y = ar[0] ^ ar[1]
            elif f == 'shl' and ar[1] < 32:
                y = ar[0] << ar[1]
            elif f == 'lshr' and ar[0] < 1 << 31 and ar[1] < 32:
                y = ar[0] >> ar[1]
            elif f == 'udiv' and ar[1]:
                y = ar[0] // ar[1]
            elif f == 'urem' and ar[1]:
                y = ar[0] % ar[1]
            elif f == 'trunc':
                n = ar[1]
                y = ar[0] % (1 << n)
            elif f == 'b2i':
                y = condval(x.args[0], env)
                y = None if y is None else int(y)
            elif f == 'ret' and x.args[0] == 'llvm.ctpop.i64':
                return None
            else:
                return None
            if y is None:
                return None
        t += k * y
    return t


def condval(c, env):
    if c is True or c is False:
        return c
    if c[0] in ('and', 'or'):
        r = [condval(x, env) for x in c[1]]
        if c[0] == 'and':
            return False if False in r else None if None in r else True
        return True if True in r else None if None in r else False
    v = termval(c[1], env)
    return None if v is None else v <= 0 if c[0] == 'le' else v == 0 if c[0] == 'eq' else v != 0


def tyrange(ty):
    if ty is None or ty.k != 'int':
        return None
    if ty.n in (8, 16):
        return (-(1 << (ty.n - 1)), (1 << ty.n - 1) - 1)
    if ty.n == 32:
        return (-(1 << 31), (1 << 31) - 1)
    return None
