"""LLVM IR front end: build /repo's sources to textual IR with the build's own
defines, parse it into a small resolved program representation.

Nothing here is executed: clang is used as a parser/type checker only and the
IR is what the analyses read."""
import json, os, re, subprocess, sys, tempfile, hashlib, shutil

CLANG = '/usr/lib/llvm-18/bin/clang'
OPT = '/usr/lib/llvm-18/bin/opt'
REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """A vanished anchor, an unbuildable tree, a rule with no instance."""


# ------------------------------------------------------------------ building
def makefile_srcs(repo):
    mk = open(os.path.join(repo, 'maa/Makefile')).read()
    m = re.search(r'^SRCS\s*=((?:.*\\\n)*.*)', mk, re.M)
    if not m:
        raise AnalysisBroken('maa/Makefile: no SRCS')
    return re.findall(r'[\w-]+\.c', m.group(1))


def version_defs(repo):
    # the version macros come from the top-level make fragments
    vals = {}
    for fn in ('Makefile.common', 'maa/Makefile', 'Makefile', 'help.mk', 'mk/version.mk'):
        p = os.path.join(repo, fn)
        if os.path.isfile(p):
            for k, v in re.findall(r'^(MAA_(?:MAJOR|MINOR|TEENY))\s*[?:]?=\s*(\d+)', open(p).read(), re.M):
                vals.setdefault(k, v)
    for k in ('MAA_MAJOR', 'MAA_MINOR', 'MAA_TEENY'):
        vals.setdefault(k, '0')
    return ['-D%s=%s' % kv for kv in vals.items()]


def base_flags(repo, gen):
    return ['-I' + os.path.join(repo, 'maa'), '-I' + repo, '-I' + gen,
            '-DHAVE_HEADER_SYS_RESOURCE_H=1', '-DHAVE_HEADER_ALLOCA_H=1',
            '-DSIZEOF_LONG=8'] + version_defs(repo)


def generate(repo, gen):
    with open(os.path.join(repo, 'maa/arggram.txt')) as i, open(os.path.join(gen, 'arggram.c'), 'w') as o:
        r = subprocess.run(['awk', '-f', os.path.join(repo, 'maa/arggram2c')], stdin=i, stdout=o)
    if r.returncode:
        raise AnalysisBroken('arggram2c failed')


def build_ir(repo=None, modules=None, keep=None, passes='mem2reg', extra=()):
    """Returns dict module -> IR text."""
    repo = repo or REPO
    srcs = makefile_srcs(repo)
    out = {}
    tmp = tempfile.mkdtemp(prefix='maasa.')
    try:
        generate(repo, tmp)
        flags = base_flags(repo, tmp)
        procs = []
        for s in srcs:
            mod = s[:-2]
            if modules is not None and mod not in modules:
                continue
            src = os.path.join(repo, 'maa', s)
            if not os.path.isfile(src):
                raise AnalysisBroken('source %s listed in maa/Makefile does not exist' % s)
            ll = os.path.join(tmp, mod + '.ll')
            cmd = '%s %s -w -std=gnu11 -O0 -Xclang -disable-O0-optnone -g -fno-discard-value-names -fno-builtin -ffp-contract=off -S -emit-llvm %s -o %s.0 && %s -S -passes=%s %s.0 -o %s' % (
                CLANG, ' '.join(flags + list(extra)), src, ll, OPT, passes, ll, ll)
            procs.append((mod, ll, subprocess.Popen(cmd, shell=True, stderr=subprocess.PIPE)))
        for mod, ll, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise AnalysisBroken('clang failed on %s.c: %s' % (mod, err.decode()[:2000]))
            out[mod] = open(ll).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'elem', 'fields', 'name', 'packed')

    def __init__(s, k, n=0, elem=None, fields=None, name=None, packed=False):
        s.k, s.n, s.elem, s.fields, s.name, s.packed = k, n, elem, fields, name, packed

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.n
        if s.k == 'arr':
            return '[%d x %r]' % (s.n, s.elem)
        if s.k == 'struct':
            return '{%s}' % ', '.join(map(repr, s.fields))
        if s.k == 'named':
            return '%' + s.name
        return s.k


INTS = {n: Ty('int', n) for n in (1, 8, 16, 32, 64, 128)}
PTR = Ty('ptr')
VOID = Ty('void')


class Lexer:
    TOK = re.compile(r'\s+|;[^\n]*|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<id>[%@](?:"[^"]*"|[-\w$.]+))|(?P<meta>![-\w$.]*)|(?P<num>0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|(?P<attr>#\d+)|(?P<ell>\.\.\.)|(?P<w>[A-Za-z_$.][-\w$.]*)|(?P<p>[()\[\]{}<>,=*:|])')

    def __init__(s, txt):
        s.t = []
        pos, n = 0, len(txt)
        while pos < n:
            m = s.TOK.match(txt, pos)
            if not m:
                raise AnalysisBroken('lex error near %r' % txt[pos:pos + 60])
            pos = m.end()
            k = m.lastgroup
            if k:
                s.t.append((k, m.group(k)))
        s.i = 0

    def peek(s, k=0):
        return s.t[s.i + k][1] if s.i + k < len(s.t) else None

    def kind(s, k=0):
        return s.t[s.i + k][0] if s.i + k < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1][1]

    def accept(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        g = s.next()
        if g != v:
            raise AnalysisBroken('parse: expected %r got %r in %r' % (v, g, ' '.join(x[1] for x in s.t)[:300]))
        return g

    def done(s):
        return s.i >= len(s.t)


ATTR_WORDS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'returned', 'noalias', 'inreg',
              'writeonly', 'readnone', 'immarg', 'nofree', 'noreturn', 'nounwind', 'sret', 'byval', 'align',
              'dereferenceable', 'dereferenceable_or_null', 'allocptr', 'dead_on_unwind', 'writable'}


def parse_type(lx, prog):
    t = lx.next()
    if t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif re.fullmatch(r'i\d+', t):
        n = int(t[1:])
        ty = INTS.get(n) or INTS.setdefault(n, Ty('int', n))
    elif t in ('float', 'double', 'x86_fp80', 'label', 'metadata'):
        ty = Ty(t)
    elif t == '[':
        n = int(lx.next())
        lx.expect('x')
        e = parse_type(lx, prog)
        lx.expect(']')
        ty = Ty('arr', n, e)
    elif t == '<':
        if lx.peek() == '{':
            lx.next()
            fs = parse_type_list(lx, prog, '}')
            lx.expect('>')
            ty = Ty('struct', fields=fs, packed=True)
        else:
            n = int(lx.next())
            lx.expect('x')
            e = parse_type(lx, prog)
            lx.expect('>')
            ty = Ty('vec', n, e)
    elif t == '{':
        ty = Ty('struct', fields=parse_type_list(lx, prog, '}'))
    elif t[0] == '%':
        ty = Ty('named', name=t[1:])
    else:
        raise AnalysisBroken('type? %r in %r' % (t, ' '.join(x[1] for x in lx.t)[:200]))
    # function type
    if lx.peek() == '(' and ty.k != 'label' and lx.kind() == 'p' and prog.fnty_ok:
        depth = 0
        while True:
            x = lx.next()
            if x == '(':
                depth += 1
            if x == ')':
                depth -= 1
                if not depth:
                    break
    return ty


def parse_type_list(lx, prog, close):
    r = []
    if lx.accept(close):
        return r
    while True:
        r.append(parse_type(lx, prog))
        if lx.accept(close):
            return r
        lx.expect(',')


# operand values: ('reg',name) ('glob',name) ('int',v) ('null',) ('undef',) ('zero',) ('fp',x) ('gep',ty,base,idx) ('cast',op,val)
#                 ('arr',[..]) ('struct',[..]) ('str',bytes)
def parse_val(lx, prog, ty):
    k = lx.kind()
    t = lx.next()
    if k == 'id':
        return ('reg', t[1:]) if t[0] == '%' else ('glob', t[1:].strip('"'))
    if k == 'num':
        if ty is not None and ty.k in ('double', 'float', 'x86_fp80'):
            return ('fp', t)
        return ('int', int(t))
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if k == 'str':
        s = t[2:-1] if t[0] == 'c' else t[1:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b += s[i].encode('latin-1', 'replace')
                i += 1
        return ('str', bytes(b))
    if t == '[' or t == '{' or t == '<':
        close = {'[': ']', '{': '}', '<': '>'}[t]
        vs = []
        if not lx.accept(close):
            while True:
                ety = parse_type(lx, prog)
                vs.append((ety, parse_val(lx, prog, ety)))
                if lx.accept(close):
                    break
                lx.expect(',')
        return ('arr' if t == '[' else 'struct', vs)
    if t == 'getelementptr':
        lx.accept('inbounds')
        lx.expect('(')
        ety = parse_type(lx, prog)
        lx.expect(',')
        bty = parse_type(lx, prog)
        base = parse_val(lx, prog, bty)
        idx = []
        while lx.accept(','):
            lx.accept('inrange')
            ity = parse_type(lx, prog)
            idx.append((ity, parse_val(lx, prog, ity)))
        lx.expect(')')
        return ('gep', ety, base, idx)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        lx.expect('(')
        sty = parse_type(lx, prog)
        v = parse_val(lx, prog, sty)
        lx.expect('to')
        dty = parse_type(lx, prog)
        lx.expect(')')
        return ('cast', t, sty, v, dty)
    if t in ('sub', 'add', 'icmp', 'select'):
        depth = 0
        while True:
            x = lx.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if not depth:
                    break
        return ('undef',)
    if t == 'no_cfi' or t == 'dso_local_equivalent':
        return parse_val(lx, prog, ty)
    raise AnalysisBroken('value? %r in %r' % (t, ' '.join(x[1] for x in lx.t)[:200]))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'blk', 'idx', 'txt', '_loc')

    def __init__(s, op, res, ty, a, dbg, txt):
        s.op, s.res, s.ty, s.a, s.dbg, s.txt = op, res, ty, a, dbg, txt
        s._loc = None


class Block:
    __slots__ = ('name', 'ins', 'phis', 'preds')

    def __init__(s, name):
        s.name, s.ins, s.phis, s.preds = name, [], [], []


class Func:
    def __init__(s, name, mod, ret, params, vararg, internal, attrs, dbg):
        s.name, s.mod, s.ret, s.params, s.vararg, s.internal, s.attrs, s.dbg = name, mod, ret, params, vararg, internal, attrs, dbg
        s.blocks = {}
        s.order = []
        s.loops = None
        s.key = ('%s:%s' % (mod.name, name)) if internal else name

    def __repr__(s):
        return s.key


class Global:
    __slots__ = ('name', 'mod', 'internal', 'const', 'ty', 'init', 'external', 'dbg', 'private')


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
         'fpext', 'fptrunc'}


class Module:
    fnty_ok = True

    def __init__(s, name, text):
        s.name = name
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.md = {}
        s.attrs = {}
        s.text = text
        s.parse(text)

    def parse(s, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] == ';':
                continue
            if l[0] == '!':
                m = re.match(r'!(\d+|[\w.]+) = (.*)', l)
                if m:
                    s.md[m.group(1)] = m.group(2)
                continue
            if l[0] == '%':
                m = re.match(r'%("?[\w.$]+"?) = type (.*)', l)
                if m:
                    if m.group(2) == 'opaque':
                        s.types[m.group(1)] = Ty('struct', fields=[])
                    else:
                        s.types[m.group(1)] = parse_type(Lexer(m.group(2)), s)
                continue
            if l[0] == '@':
                s.parse_global(l)
                continue
            if l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                if m:
                    s.attrs[m.group(1)] = m.group(2)
                continue
            if l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                s.decls[m.group(1)] = l
                continue
            if l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                s.parse_func(l, body)

    def parse_global(s, l):
        m = re.match(r'@("?[\w.$]+"?) = (.*)', l)
        g = Global()
        g.name = m.group(1).strip('"')
        g.mod = s
        rest = m.group(2)
        g.dbg = None
        d = re.search(r'!dbg !(\d+)', rest)
        if d:
            g.dbg = d.group(1)
        words = []
        lx = Lexer(rest)
        g.internal = g.external = g.const = g.private = False
        while True:
            w = lx.peek()
            if w in ('internal', 'private'):
                g.internal = True
                g.private = w == 'private'
            elif w == 'external':
                g.external = True
            elif w in ('constant', 'global'):
                g.const = w == 'constant'
                lx.next()
                break
            lx.next()
        g.ty = parse_type(lx, s)
        g.init = None
        if not lx.done() and lx.peek() not in (',',) and not g.external:
            g.init = parse_val(lx, s, g.ty)
        s.globals[g.name] = g

    def parse_func(s, head, body):
        m = re.search(r'@("?[\w.$]+"?)\(', head)
        name = m.group(1)
        pre = head[:m.start()]
        internal = ' internal ' in pre
        lx = Lexer(pre[len('define'):])
        while lx.peek() in ('dso_local', 'internal', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'linkonce_odr', 'hidden', 'weak'):
            lx.next()
        ret = parse_type(lx, s)
        lx = Lexer(head[m.end():])
        params = []
        vararg = False
        while True:
            if lx.accept(')'):
                break
            if lx.kind() == 'ell':
                lx.next()
                vararg = True
                continue
            ty = parse_type(lx, s)
            pname = None
            while lx.peek() not in (',', ')'):
                if lx.kind() == 'id':
                    pname = lx.next()[1:]
                elif lx.peek() == '(':
                    while lx.next() != ')':
                        pass
                else:
                    lx.next()
            params.append((ty, pname))
            lx.accept(',')
        rest = head[m.end():]
        d = re.search(r'!dbg !(\d+)', rest)
        at = ' '.join(s.attrs.get(a, a) for a in re.findall(r'#\d+', rest))
        f = Func(name, s, ret, params, vararg, internal, at, d.group(1) if d else None)
        blk = None
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                nm = l.split(':')[0].strip('"')
                blk = Block(nm)
                f.blocks[nm] = blk
                f.order.append(nm)
                continue
            if '= phi ' not in l and l.rstrip().endswith('['):
                while not body[j].strip().startswith(']'):
                    l += ' ' + body[j].strip()
                    j += 1
                l += ' ' + body[j].strip()
                j += 1
            if blk is None:
                blk = Block('entry')
                f.blocks['entry'] = blk
                f.order.append('entry')
            ins = s.parse_instr(l.strip())
            if ins is None:
                continue
            ins.fn = f
            ins.blk = blk
            if ins.op == 'phi':
                blk.phis.append(ins)
            else:
                ins.idx = len(blk.ins)
                blk.ins.append(ins)
        for b in f.blocks.values():
            for t in succs(b):
                f.blocks[t].preds.append(b.name)
        s.funcs[name] = f

    def parse_instr(s, l):
        if '@llvm.dbg.' in l or '@llvm.lifetime' in l:
            return None
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            dbg = m.group(1)
            l2 = l[:m.start()]
        else:
            l2 = re.sub(r', !llvm\.loop !\d+', '', l)
            l2 = re.sub(r', ![\w.]+ !\d+', '', l2)
        lx = Lexer(l2)
        res = None
        if lx.kind() == 'id' and lx.peek(1) == '=':
            res = lx.next()[1:]
            lx.next()
        op = lx.next()
        mk = lambda ty, *a: Instr(op, res, ty, a, dbg, l)
        if op in ('tail', 'musttail', 'notail'):
            op = lx.next()
        if op == 'ret':
            ty = parse_type(lx, s)
            return mk(ty, None if ty.k == 'void' else parse_val(lx, s, ty))
        if op == 'unreachable':
            return mk(VOID)
        if op == 'br':
            if lx.peek() == 'label':
                lx.next()
                return mk(VOID, lx.next()[1:])
            ty = parse_type(lx, s)
            c = parse_val(lx, s, ty)
            lx.expect(',')
            lx.expect('label')
            a = lx.next()[1:]
            lx.expect(',')
            lx.expect('label')
            b = lx.next()[1:]
            return mk(VOID, c, a, b)
        if op == 'switch':
            ty = parse_type(lx, s)
            v = parse_val(lx, s, ty)
            lx.expect(',')
            lx.expect('label')
            d = lx.next()[1:]
            lx.expect('[')
            cases = []
            while not lx.accept(']'):
                cty = parse_type(lx, s)
                cv = parse_val(lx, s, cty)
                lx.expect(',')
                lx.expect('label')
                cases.append((cv[1], lx.next()[1:]))
            return mk(ty, v, d, cases)
        if op == 'alloca':
            ty = parse_type(lx, s)
            cnt = ('int', 1)
            if lx.accept(','):
                if lx.peek() != 'align':
                    cty = parse_type(lx, s)
                    cnt = parse_val(lx, s, cty)
            return mk(ty, cnt)
        if op == 'load':
            lx.accept('volatile')
            ty = parse_type(lx, s)
            lx.expect(',')
            pty = parse_type(lx, s)
            return mk(ty, parse_val(lx, s, pty))
        if op == 'store':
            lx.accept('volatile')
            ty = parse_type(lx, s)
            v = parse_val(lx, s, ty)
            lx.expect(',')
            pty = parse_type(lx, s)
            return mk(ty, v, parse_val(lx, s, pty))
        if op == 'getelementptr':
            lx.accept('inbounds')
            ety = parse_type(lx, s)
            lx.expect(',')
            pty = parse_type(lx, s)
            base = parse_val(lx, s, pty)
            idx = []
            while lx.accept(','):
                ity = parse_type(lx, s)
                idx.append((ity, parse_val(lx, s, ity)))
            return mk(PTR, ety, base, idx)
        if op == 'phi':
            ty = parse_type(lx, s)
            inc = []
            while lx.accept('['):
                v = parse_val(lx, s, ty)
                lx.expect(',')
                inc.append((v, lx.next()[1:]))
                lx.expect(']')
                lx.accept(',')
            return mk(ty, inc)
        if op in ('icmp', 'fcmp'):
            pred = lx.next()
            ty = parse_type(lx, s)
            a = parse_val(lx, s, ty)
            lx.expect(',')
            b = parse_val(lx, s, ty)
            return mk(INTS[1], pred, ty, a, b)
        if op in BINOPS:
            while lx.peek() in ('nsw', 'nuw', 'exact', 'fast', 'disjoint'):
                lx.next()
            ty = parse_type(lx, s)
            a = parse_val(lx, s, ty)
            lx.expect(',')
            b = parse_val(lx, s, ty)
            return mk(ty, a, b)
        if op in CASTS:
            lx.accept('nneg')
            sty = parse_type(lx, s)
            v = parse_val(lx, s, sty)
            lx.expect('to')
            dty = parse_type(lx, s)
            return mk(dty, sty, v)
        if op == 'select':
            cty = parse_type(lx, s)
            c = parse_val(lx, s, cty)
            lx.expect(',')
            ty = parse_type(lx, s)
            a = parse_val(lx, s, ty)
            lx.expect(',')
            parse_type(lx, s)
            b = parse_val(lx, s, ty)
            return mk(ty, c, a, b)
        if op == 'call':
            while lx.peek() in ATTR_WORDS or lx.peek() in ('fastcc', 'ccc', 'range'):
                w = lx.next()
                if lx.peek() == '(' and w in ('range', 'dereferenceable', 'align'):
                    while lx.next() != ')':
                        pass
                elif w == 'align':
                    lx.next()
            ty = parse_type(lx, s)
            callee = parse_val(lx, s, PTR)
            lx.expect('(')
            args = []
            while not lx.accept(')'):
                aty = parse_type(lx, s)
                if aty.k == 'metadata':
                    while lx.peek() not in (',', ')'):
                        lx.next()
                    args.append((aty, ('undef',)))
                    lx.accept(',')
                    continue
                while lx.peek() in ATTR_WORDS:
                    w = lx.next()
                    if lx.peek() == '(':
                        d = 0
                        while True:
                            x = lx.next()
                            d += x == '('
                            d -= x == ')'
                            if not d:
                                break
                    elif w == 'align':
                        lx.next()
                args.append((aty, parse_val(lx, s, aty)))
                lx.accept(',')
            return mk(ty, callee, args)
        if op == 'fneg':
            ty = parse_type(lx, s)
            return mk(ty, parse_val(lx, s, ty))
        if op == 'extractvalue':
            ty = parse_type(lx, s)
            v = parse_val(lx, s, ty)
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()))
            return mk(ty, v, idx)
        if op == 'insertvalue':
            ty = parse_type(lx, s)
            v = parse_val(lx, s, ty)
            lx.expect(',')
            ety = parse_type(lx, s)
            e = parse_val(lx, s, ety)
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()))
            return mk(ty, v, ety, e, idx)
        if op == 'freeze':
            ty = parse_type(lx, s)
            return mk(ty, parse_val(lx, s, ty))
        raise AnalysisBroken('%s: unsupported instruction %r' % (s.name, l))

    # ---- layout
    def rt(s, ty):
        while ty.k == 'named':
            if ty.name not in s.types:
                raise AnalysisBroken('type %s' % ty.name)
            ty = s.types[ty.name]
        return ty

    def align(s, ty):
        ty = s.rt(ty)
        if ty.k == 'int':
            return max(1, min(16, ty.n // 8))
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'x86_fp80':
            return 16
        if ty.k == 'arr':
            return s.align(ty.elem)
        if ty.k == 'struct':
            return 1 if ty.packed else max([s.align(f) for f in ty.fields] or [1])
        if ty.k == 'vec':
            return s.size(ty)
        raise AnalysisBroken('align %r' % ty)

    def size(s, ty):
        ty = s.rt(ty)
        if ty.k == 'int':
            return max(1, ty.n // 8)
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'x86_fp80':
            return 16
        if ty.k in ('arr', 'vec'):
            return ty.n * s.size(ty.elem)
        if ty.k == 'struct':
            o = 0
            for f in ty.fields:
                if not ty.packed:
                    a = s.align(f)
                    o = (o + a - 1) // a * a
                o += s.size(f)
            a = 1 if ty.packed else s.align(ty)
            return (o + a - 1) // a * a
        raise AnalysisBroken('size %r' % ty)

    def offset(s, ty, k):
        ty = s.rt(ty)
        o = 0
        for j, f in enumerate(ty.fields):
            if not ty.packed:
                a = s.align(f)
                o = (o + a - 1) // a * a
            if j == k:
                return o
            o += s.size(f)
        raise AnalysisBroken('offset')

    # ---- debug info
    def mdfields(s, k):
        txt = s.md.get(k, '')
        return dict((a, b.strip('"')) for a, b in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w.]+|[^,()]+)', txt))

    def line(s, dbg):
        """(line, inlined scope ignored)"""
        if not dbg:
            return 0
        m = re.search(r'line: (\d+)', s.md.get(dbg, ''))
        return int(m.group(1)) if m else 0

    def structs(s):
        """debug-info struct name -> {field: (offset bytes, size bytes)} ; anonymous
        structs are reachable through typedef names"""
        if hasattr(s, '_structs'):
            return s._structs
        res = {}

        def members(k):
            f = s.mdfields(k)
            el = f.get('elements')
            out = {}
            if not el:
                return out
            for e in re.findall(r'!(\d+)', s.md.get(el[1:], '')):
                mf = s.mdfields(e)
                if 'DW_TAG_member' in s.md.get(e, ''):
                    out[mf.get('name', '?')] = (int(mf.get('offset', '0')) // 8, int(mf.get('size', '0')) // 8, mf.get('baseType', '')[1:])
            return out
        for k, v in s.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v and 'elements:' in v:
                f = s.mdfields(k)
                if 'name' in f:
                    res[f['name']] = members(k)
            elif 'DW_TAG_typedef' in v:
                f = s.mdfields(k)
                b = f.get('baseType', '')[1:]
                while b and ('DW_TAG_pointer_type' in s.md.get(b, '') or 'DW_TAG_typedef' in s.md.get(b, '')):
                    b = s.mdfields(b).get('baseType', '')[1:]
                if 'DW_TAG_structure_type' in s.md.get(b, '') and 'elements:' in s.md.get(b, ''):
                    res.setdefault(f.get('name'), members(b))
        s._structs = canonical(s, res)
        return s._structs


def typedesc(m, b, depth=3):
    """a structural description of a type that does not depend on the names of structs and typedefs"""
    if not b:
        return 'void'
    d = m.md.get(b, '')
    f = m.mdfields(b)
    base = f.get('baseType', '')[1:]
    if 'DW_TAG_pointer_type' in d:
        return '*' + (typedesc(m, base, depth - 1) if depth else '')
    if any(t in d for t in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type')):
        return typedesc(m, base, depth)
    if 'DISubroutineType' in d:
        return 'fn%d' % len(re.findall(r'!\d+|null', m.md.get(f.get('types', '!')[1:], '')))
    if 'DW_TAG_array_type' in d:
        return '[%s]%s' % (f.get('size', ''), typedesc(m, base, depth))
    if 'DW_TAG_structure_type' in d or 'DW_TAG_union_type' in d:
        return 'agg'
    return f.get('name', '?').strip('"') + f.get('size', '')


def layouts(m, structs):
    return {t: [[k, z, typedesc(m, b)] for k, (o, z, b) in sorted(fs.items(), key=lambda x: x[1][0])] for t, fs in structs.items() if t}


def canonical(m, res):
    """Names of struct tags and members are no behaviour: where a name of the confirmed tree
    (layout.json) is gone, the new name that corresponds to it by type and order stands in."""
    ref = REFLAYOUT().get(m.name)
    if not ref:
        return res
    now = layouts(m, res)
    sig = lambda l: [(z, t) for k, z, t in l]
    for tag, l in ref.items():
        if tag in res:
            continue
        c = [t for t in now if t not in ref and sorted(sig(now[t])) == sorted(sig(l))]
        if len(c) > 1:
            d = [t for t in c if [k for k, z, t2 in now[t]] == [k for k, z, t2 in l]]
            c = d or ([] if any(res[t] != res[c[0]] for t in c) else c[:1])
        if len(c) == 1 or (c and all(res[t] == res[c[0]] for t in c)):
            res[tag] = res[c[0]]
            now[tag] = now[c[0]]
    for tag, l in ref.items():
        if tag not in res:
            continue
        gone = [x for x in l if x[0] not in res[tag]]
        if not gone:
            continue
        known = {x[0] for x in l}
        new = [x for x in now[tag] if x[0] not in known]
        fs = dict(res[tag])
        for z, t in {(z, t) for k, z, t in gone}:
            g = [x[0] for x in gone if x[1:] == [z, t]]
            n = [x[0] for x in new if x[1:] == [z, t]]
            if len(n) != len(g):
                # a change of type too: the name of one that is left decides nothing
                continue
            for a, b in zip(g, n):
                fs[a] = fs[b]
        gone = [x for x in gone if x[0] not in fs]
        new = [x for x in new if not any(fs[x[0]] is fs.get(y[0]) for y in l)]
        if len(gone) == len(new) == 1 and (gone[0][2][0] == '*') == (new[0][2][0] == '*'):
            fs[gone[0][0]] = fs[new[0][0]]
        res[tag] = fs
    return res


_ref = []


def REFLAYOUT():
    if not _ref:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')
        _ref.append(json.load(open(p)) if os.path.exists(p) else {})
    return _ref[0]


def param_types(f):
    """typedef names of the parameters, from the debug information ('' where the type is not a plain typedef); [0] is the result"""
    m = f.mod
    sp = m.mdfields(f.dbg or '')
    ty = m.mdfields(sp.get('type', '!')[1:])
    out = []
    for k in re.findall(r'!(\d+)|(null)', m.md.get(ty.get('types', '!')[1:], '')):
        d = m.md.get(k[0], '') if k[0] else ''
        while 'DW_TAG_const_type' in d:
            d = m.md.get(m.mdfields(k[0]).get('baseType', '!')[1:], '')
            break
        out.append(re.search(r'name: "(\w+)"', d).group(1) if 'DW_TAG_typedef' in d and 'name:' in d else '')
    return out


def succs(b):
    t = b.ins[-1]
    if t.op == 'br':
        return [t.a[0]] if len(t.a) == 1 else list(dict.fromkeys([t.a[1], t.a[2]]))
    if t.op == 'switch':
        return list(dict.fromkeys([t.a[1]] + [c[1] for c in t.a[2]]))
    return []


class Loop:
    __slots__ = ('header', 'blocks', 'latches')


def find_loops(f):
    """natural loops by dominators; returns dict header -> Loop"""
    if f.loops is not None:
        return f.loops
    entry = f.order[0]
    # reachable + rpo
    seen, rpo = set(), []

    def dfs(n):
        stack = [(n, iter(succs(f.blocks[n])))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succs(f.blocks[y]))))
                    break
            else:
                rpo.append(x)
                stack.pop()
    dfs(entry)
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for t in succs(f.blocks[b]):
            if dom(t, b):
                L = loops.get(t)
                if L is None:
                    L = loops[t] = Loop()
                    L.header = t
                    L.blocks = {t}
                    L.latches = set()
                L.latches.add(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st.extend(p for p in f.blocks[x].preds if p in num)
            elif num[t] <= num[b]:
                raise AnalysisBroken('irreducible loop in %s' % f.key)
    f.loops = loops
    f.idom = idom
    f.rpo = rpo
    return loops


class Program:
    def __init__(s, irs):
        s.mods = {m: Module(m, t) for m, t in irs.items()}
        s.funcs = {}
        s.defined_in = {}
        for m in s.mods.values():
            for f in m.funcs.values():
                s.funcs[f.key] = f

    def resolve(s, mod, name):
        """callee by name as seen from module mod"""
        f = mod.funcs.get(name)
        if f:
            return f
        return s.funcs.get(name)

    def glob(s, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.external:
            return g
        for m in s.mods.values():
            h = m.globals.get(name)
            if h is not None and not h.external and not h.internal:
                return h
        return g

    def func(s, name):
        f = s.funcs.get(name)
        if f is None:
            raise AnalysisBroken('function %s is not defined any more' % name)
        return f

    def loc(s, ins):
        if ins is None:
            return '?'
        return '%s.c:%d' % (ins.fn.mod.name, ins.fn.mod.line(ins.dbg))


def load(modules=None, repo=None, passes='mem2reg'):
    return Program(build_ir(repo, modules, passes=passes))


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(time.time() - t, len(p.funcs))
    for f in p.funcs.values():
        find_loops(f)
    print(time.time() - t)
    print(p.mods['hash'].structs())
