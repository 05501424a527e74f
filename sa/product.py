"""The state of a routine that walks over a text: live values of every active function and the
contents of their local variables, with positions in the text made relative by the caller."""
import ir as IR
import live as LV
from terms import *


def _regs(v):
    return [v[1]] if isinstance(v, tuple) and v and v[0] == 'reg' else []


def positional(prog):
    """{function key: registers that serve as an index into text}"""
    memo = prog.__dict__.get('_positional')
    if memo is not None:
        return memo
    pos = {}
    funcs = [f for f in prog.funcs.values() if f.blocks]
    for f in funcs:
        pos[f.key] = set()
    callee = {}
    ch = True
    while ch:
        ch = False
        for f in funcs:
            p = pos[f.key]
            n0 = len(p)
            for b in f.order:
                for i in f.blocks[b].phis + [x for x in f.blocks[b].ins if x.op != 'phi']:
                    a = i.a
                    if i.op == 'getelementptr':
                        if a[0].k == 'int' and a[0].n == 8 and len(a[2]) == 1:
                            p.update(_regs(a[2][0][1]))
                    elif i.op == 'phi':
                        r = [x for v, _ in a[0] for x in _regs(v)]
                        if i.res in p or any(x in p for x in r):
                            p.update(r + [i.res])
                    elif i.op == 'select':
                        r = _regs(a[1]) + _regs(a[2])
                        if i.ty.k == 'int' and i.ty.n > 1 and (i.res in p or any(x in p for x in r)):
                            p.update(r + [i.res])
                    elif i.op in ('sext', 'zext', 'trunc'):
                        r = _regs(a[1])
                        if i.ty.n > 8 and (i.res in p or any(x in p for x in r)) and (a[0].k != 'int' or a[0].n > 8):
                            p.update(r + [i.res])
                    elif i.op == 'add':
                        r = _regs(a[0]) + _regs(a[1])
                        if i.res in p:
                            p.update(r)
                        elif len(r) == 1 and r[0] in p:
                            p.add(i.res)
                    elif i.op == 'call':
                        c = a[0]
                        if c[0] != 'glob':
                            continue
                        g = callee.get((f.mod.name, c[1]))
                        if g is None:
                            try:
                                g = prog.resolve(f.mod, c[1]) or 0
                            except Exception:
                                g = 0
                            callee[f.mod.name, c[1]] = g
                        if not g or not g.blocks:
                            continue
                        for (t, v), (_, q) in zip(a[1], g.params):
                            for x in _regs(v):
                                if x in p and q not in pos[g.key]:
                                    pos[g.key].add(q)
                                    ch = True
                                if q in pos[g.key]:
                                    p.add(x)
            if len(p) != n0:
                ch = True
    prog.__dict__['_positional'] = pos
    return pos


def at_header(fr):
    """live on entry to the block"""
    f = fr.f
    b = f.blocks[fr.blk]
    live = set(LV.liveness(f)[fr.blk])
    for i in reversed(b.ins):
        if i.res:
            live.discard(i.res)
        if i.op != 'phi':
            live |= LV.uses(i)
    return live | {p.res for p in b.phis}


def snapshot(e, st, show, header=True):
    """show(value, is it an index) -> text or None; the arguments of the routine, as they were passed on, do not move"""
    pos = positional(e.prog)

    def text(v, index):
        if isinstance(v, Lin):
            v = st.norm(v)
            r = show(v, index)
            return str(v) if r is None else r
        return str(v)
    out = []
    still = set()
    for k, fr in enumerate(st.frames):
        f = fr.f
        if k == 0:
            still = {q for _, q in f.params}
        else:
            still = {q for (t, v), (_, q) in zip(fr.call.a[1], f.params) if any(x in still for x in _regs(v))} if fr.call is not None and fr.call.op == 'call' else set()
        names = at_header(fr) if header and k == len(st.frames) - 1 else LV.after(f, fr.blk, fr.ip)
        out.append((f.key, fr.blk, k == len(st.frames) - 1 or fr.ip, tuple((n, 'argument' if n in still else text(fr.env.get(n), n in pos[f.key])) for n in sorted(names))))
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op != 'alloca' or i.res not in fr.env:
                    continue
                root, idx = e.root_of(st, st.norm(fr.env[i.res]))
                row = {}
                for x in st.log.get(root, ()):
                    if x.binders or x.guard is not True or not isconst(st.norm(x.idx[-1])):
                        row[str(x.key())] = '?'
                        continue
                    if [st.norm(j) for j in x.idx[:-1]] != [st.norm(j) for j in idx[:-1]]:
                        continue
                    row[st.norm(x.idx[-1]).c] = text(x.val, False)
                if row:
                    out.append((f.key, i.res, tuple(sorted(row.items(), key=str))))
    return tuple(out)
