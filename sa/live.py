"""Which values of a function are still used after an instruction (SSA liveness over the text of the IR)."""
import re
import ir as IR

NAME = re.compile(r'%("[^"]+"|[\w.$-]+)')


def uses(i):
    t = i.txt.split(', !dbg')[0]
    t = re.sub(r'^\s*%("[^"]+"|[\w.$-]+)\s*=', '', t)
    t = re.sub(r'label %("[^"]+"|[\w.$-]+)', '', t)
    return {x.strip('"') for x in NAME.findall(t)}


def phi_uses(i):
    """{predecessor: names}"""
    r = {}
    for v, p in re.findall(r'\[\s*([^,\]]+),\s*%("[^"]+"|[\w.$-]+)\s*\]', i.txt):
        m = NAME.match(v.strip())
        if m:
            r.setdefault(p.strip('"'), set()).add(m.group(1).strip('"'))
    return r


def liveness(f):
    memo = f.__dict__.get('_live')
    if memo is not None:
        return memo
    out = {b: set() for b in f.order}
    inn = {b: set() for b in f.order}
    gen = {}
    for b in f.order:
        bl = f.blocks[b]
        g, d = set(), {p.res for p in bl.phis}
        for i in bl.ins:
            if i.op == 'phi':
                d.add(i.res)
                continue
            g |= uses(i) - d
            if i.res:
                d.add(i.res)
        gen[b] = g, d
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set()
            for s in IR.succs(f.blocks[b]):
                o |= inn[s]
                for p in list(f.blocks[s].phis) + [i for i in f.blocks[s].ins if i.op == 'phi']:
                    o |= phi_uses(p).get(b, set())
            n = gen[b][0] | (o - gen[b][1])
            if o != out[b] or n != inn[b]:
                out[b], inn[b], ch = o, n, True
    f.__dict__['_live'] = out
    return out


def after(f, blk, ip):
    """names live after instruction ip of the block"""
    l = set(liveness(f)[blk])
    for i in reversed(f.blocks[blk].ins[ip + 1:]):
        if i.res:
            l.discard(i.res)
        if i.op != 'phi':
            l |= uses(i)
    return l
