"""Functions that change nothing outside memory they allocate themselves (an effect analysis over the IR)."""
import ir as IR

FRESH = {'malloc', 'calloc', 'strdup', 'xmalloc', 'xcalloc', 'xstrdup', 'realloc', 'xrealloc'}
QUIET = {'mkdir', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'free', 'xfree', 'access', 'stat', 'strchr', 'strrchr', 'umask', 'time', '__errno_location',
         'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'isspace', 'isdigit', 'memcpy', 'strcpy', 'strncpy', 'memmove', 'memset',
         'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64'} | FRESH
DEST = {'memcpy', 'strcpy', 'strncpy', 'memmove', 'memset', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'free', 'xfree'}


def contained(prog, f, noreturn=(), seen=frozenset()):
    """f writes only its own variables and memory it allocates, frees only the latter, and calls nothing but harmless functions"""
    if f.key in seen:
        return False
    defs, stores = {}, {}
    for b in f.blocks.values():
        for i in list(b.phis) + list(b.ins):
            if i.res is not None:
                defs[i.res] = i
            if i.op == 'store':
                v, p = i.a
                if p[0] == 'reg':
                    stores.setdefault(p[1], []).append(v)

    def origin(v, seen):
        """set of 'var' (address of a local), 'fresh', 'out'"""
        if v[0] == 'null':
            return set()
        if v[0] != 'reg':
            return {'out'}
        if v[1] in seen:
            return set()
        seen = seen | {v[1]}
        d = defs.get(v[1])
        if d is None:
            return {'out'}
        if d.op == 'alloca':
            return {'var:' + v[1]}
        if d.op == 'getelementptr':
            return origin(d.a[1], seen)
        if d.op == 'load':
            p = d.a[0]
            if p[0] == 'reg' and defs.get(p[1]) is not None and defs[p[1]].op == 'alloca':
                r = set()
                for x in stores.get(p[1], []):
                    r |= origin(x, seen)
                return r
            return {'out'}
        if d.op == 'call':
            cal, args = d.a
            if cal[0] == 'glob' and cal[1] in FRESH:
                return {'fresh'}
            if cal[0] == 'glob' and cal[1] in ('strchr', 'strrchr'):
                return origin(args[0][1], seen)
            return {'out'}
        if d.op == 'phi':
            r = set()
            for x, lbl in d.a[0]:
                r |= origin(x, seen)
            return r
        if d.op == 'select':
            return origin(d.a[1], seen) | origin(d.a[2], seen)
        return {'out'}
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'store':
                v, p = i.a
                if 'out' in origin(p, frozenset()):
                    return False
            elif i.op == 'call':
                cal, args = i.a
                if cal[0] != 'glob':
                    return False
                n = cal[1]
                if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
                    continue
                if n not in QUIET and n not in noreturn:
                    t = prog.resolve(f.mod, n)
                    if t is None or not contained(prog, t, noreturn, seen | {f.key}):
                        return False
                    continue
                if n in DEST and ('out' in origin(args[0][1], frozenset())):
                    return False
                if n in ('realloc', 'xrealloc') and 'out' in origin(args[0][1], frozenset()):
                    return False
    return True


