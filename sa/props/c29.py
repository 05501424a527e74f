"""C29: everything the public header promises exists and can be used."""
import json
import re
import subprocess
import tempfile
from spec import *

HANDLES = 'typedef void *'


def clang(args, d, src, name='w.c', ext=()):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(src)
    return subprocess.run([ir.CLANG] + args + ir.base_flags(ir.REPO, d) + list(ext) + [p], capture_output=True, text=True)


def declared(d):
    """functions and variables declared in the header itself, by the compiler's syntax tree"""
    r = clang(['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'], d, '#include "maa.h"\n')
    if r.returncode:
        return None, r.stderr
    t = json.loads(r.stdout)
    cur = [None]
    out = {}

    def visit(x):
        if isinstance(x, dict):
            if isinstance(x.get('file'), str):
                cur[0] = x['file']
            for k, v in list(x.items()):
                if k == 'includedFrom':
                    continue
                if k == 'loc':
                    visit(v)
                    if x.get('kind') in ('FunctionDecl', 'VarDecl') and cur[0] and cur[0].endswith('/maa.h'):
                        x['_maa'] = True
                elif isinstance(v, (dict, list)):
                    visit(v)
        elif isinstance(x, list):
            for y in x:
                visit(y)
    visit(t)
    for x in t['inner']:
        if x.get('_maa') and x.get('storageClass') != 'static' and not x.get('inline'):
            loc = x['loc'].get('expansionLoc', x['loc'])
            out[x['name']] = (x['kind'], x['type']['qualType'], loc.get('line', 0))
    return out, ''


def macro_names(d):
    r = clang(['-E', '-dD'], d, '#include "maa.h"\n')
    here, names = False, {}
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "(.*?)"', l)
        if m:
            here = m.group(1).endswith('/maa.h')
        m = re.match(r'#define (\w+)(\(?)', l)
        if m and here:
            names[m.group(1)] = bool(m.group(2))
    return names


SIG = re.compile(r'^(define|declare)\b(.*?)@([\w.]+)\((.*?)\)', re.M)
ATTR = re.compile(r'\b(?:noundef|signext|zeroext|dso_local|local_unnamed_addr|internal|nonnull|noalias|returned|nocapture|readonly|readnone|writeonly|hidden|protected)\b|%[\w."]+')


def signatures(text):
    r = {}
    for m in SIG.finditer(text):
        kind, ret, name, par = m.groups()
        ret = ' '.join(ATTR.sub('', ret).split())
        ps = [' '.join(ATTR.sub('', p).split()) for p in split_args(par)]
        r.setdefault(name, {})[kind] = (ret, tuple(p for p in ps if p))
    return r


def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '({[<':
            depth += 1
        elif c in ')}]>':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur.strip() else out


# documented use of every public macro: (name, macros it uses, client function)
def walk(name, F, T, P, kdecl, head, show):
    return name, 'extern void show(const void *, const void *);\nvoid client(%s T) { %s P; %s %s { show(%s); } }\n' % (T, P, kdecl, head, show)


USES = [
    walk('HSH_ITERATE', 'hsh', 'hsh_HashTable', 'hsh_Position', 'void *K; void *D;', 'HSH_ITERATE(T, P, K, D)', 'K, D'),
    walk('HSH_ITERATE_KEYS', 'hsh', 'hsh_HashTable', 'hsh_Position', 'void *K;', 'HSH_ITERATE_KEYS(T, P, K)', 'K, 0'),
    walk('SET_ITERATE', 'set', 'set_Set', 'set_Position', 'void *E;', 'SET_ITERATE(T, P, E)', 'E, 0'),
    walk('LST_ITERATE', 'lst', 'lst_List', 'lst_Position', 'void *E;', 'LST_ITERATE(T, P, E)', 'E, 0'),
    walk('STR_ITERATE', 'str_pool', 'str_Pool', 'str_Position', 'const char *K;', 'STR_ITERATE(T, P, K)', 'K, 0'),
]
FAMILY = {'HSH_ITERATE': 'hsh', 'HSH_ITERATE_KEYS': 'hsh', 'SET_ITERATE': 'set', 'LST_ITERATE': 'lst', 'STR_ITERATE': 'str_pool'}
LIST2 = 'extern void show(const void *, const void *);\nvoid client(lst_List L1, lst_List L2) { lst_Position P1, P2; void *E1; void *E2; LST_ITERATE2(L1, L2, P1, P2, E1, E2) { show(E1, E2); } }\n'
ENDS = {'HSH_ITERATE_END': ('hsh_HashTable', 'hsh_readonly'), 'SET_ITERATE_END': ('set_Set', 'set_readonly'), 'STR_ITERATE_END': ('str_Pool', 'str_pool_readonly')}
STEPS = {
    'HSH_POSITION_INIT': 'void client(hsh_HashTable T) { hsh_Position P; HSH_POSITION_INIT(P, T); show(P, 0); }',
    'HSH_POSITION_NEXT': 'void client(hsh_HashTable T, hsh_Position P) { HSH_POSITION_NEXT(P, T); show(P, 0); }',
    'HSH_POSITION_OK': 'void client(hsh_Position P) { if (HSH_POSITION_OK(P)) show(P, 0); }',
    'HSH_POSITION_GET': 'void client(hsh_Position P) { void *K; void *D; HSH_POSITION_GET(P, K, D); show(K, D); }',
    'HSH_POSITION_GETKEY': 'void client(hsh_Position P) { void *K; HSH_POSITION_GETKEY(P, K); show(K, 0); }',
    'SET_POSITION_INIT': 'void client(set_Set T) { set_Position P; SET_POSITION_INIT(P, T); show(P, 0); }',
    'SET_POSITION_NEXT': 'void client(set_Set T, set_Position P) { SET_POSITION_NEXT(P, T); show(P, 0); }',
    'SET_POSITION_OK': 'void client(set_Position P) { if (SET_POSITION_OK(P)) show(P, 0); }',
    'SET_POSITION_GET': 'void client(set_Position P) { void *E; SET_POSITION_GET(P, E); show(E, 0); }',
    'LST_POSITION_INIT': 'void client(lst_List T) { lst_Position P; LST_POSITION_INIT(P, T); show(P, 0); }',
    'LST_POSITION_NEXT': 'void client(lst_Position P) { LST_POSITION_NEXT(P); show(P, 0); }',
    'LST_POSITION_OK': 'void client(lst_Position P) { if (LST_POSITION_OK(P)) show(P, 0); }',
    'LST_POSITION_GET': 'void client(lst_Position P) { void *E; LST_POSITION_GET(P, E); show(E, 0); }',
    'STR_POSITION_INIT': 'void client(str_Pool T) { str_Position P; STR_POSITION_INIT(P, T); show(P, 0); }',
    'STR_POSITION_NEXT': 'void client(str_Pool T, str_Position P) { STR_POSITION_NEXT(P, T); show(P, 0); }',
    'STR_POSITION_OK': 'void client(str_Position P) { if (STR_POSITION_OK(P)) show(P, 0); }',
    'STR_POSITION_GET': 'void client(str_Position P) { const char *K; show(STR_POSITION_GET(P, K), 0); }',
    'str_pool_readonly': 'int client(str_Pool T, int f) { return str_pool_readonly(T, f); }',
    'PRINTF': 'void client(int n) { PRINTF(MAA_PR, ("text %d\\n", n)); }',
}
SHOW = 'extern void show(const void *, const void *);\n'


def run(ck):
    H = 'maa/maa.h'
    with tempfile.TemporaryDirectory(prefix='maasa.') as d:
        ir.generate(ir.REPO, d)
        ck.entries.append(H)
        decls, err = declared(d)
        nm = 'the header can be included on its own'
        if decls is None:
            ck.violated(H, nm, err.splitlines()[0] if err else 'it does not compile', H, [], sig='header')
            ck.finish('static', minimum=1)
        ck.ok(H, nm)
        for lab, ext in (('C99', ['-std=c99']), ('C11 with warnings as errors', ['-std=gnu11', '-Wall', '-Wextra', '-Werror']), ('without magic numbers', ['-DMAA_MAGIC=0']), ('gcc', None)):
            p = os.path.join(d, 'inc.c')
            open(p, 'w').write('#include "maa.h"\nint x;\n')
            r = subprocess.run((['gcc', '-Wall', '-Werror'] if ext is None else [ir.CLANG] + ext) + ['-fsyntax-only'] + ir.base_flags(ir.REPO, d) + [p], capture_output=True, text=True)
            if r.returncode:
                ck.violated(H, nm, '%s: %s' % (lab, first_error(r.stderr)), H, [], sig='header-%s' % lab)
            else:
                ck.ok(H, nm)

        # ------------------------------------------------------- declared and defined
        ck.need(len(decls) > 150, 'declarations of maa.h')
        srcs = {m.name: m for m in ck.prog.mods.values()}
        irs = {}
        funs = sorted(n for n, x in decls.items() if x[0] == 'FunctionDecl')
        src = '#include "maa.h"\n' + ''.join('void *const use_%s = (void *)&%s;\n' % (n, n) for n in funs)
        r = clang(['-S', '-emit-llvm', '-O0', '-w', '-o', '-'], d, src)
        if r.returncode:
            raise AnchorLost('client of all functions: ' + r.stderr[:300])
        want = signatures(r.stdout)
        defs, gdefs = {}, {}
        for mod, text in sorted(ir.build_ir(ir.REPO, None, passes='verify').items()):
            for n, k in signatures(text).items():
                if 'define' in k and not re.search(r'^define internal[^@]*@%s\(' % re.escape(n), text, re.M):
                    defs.setdefault(n, []).append((mod, k['define']))
            for m in re.finditer(r'^@([\w.]+) = (?!private|internal|external)(?:[\w()]+ )*(?:global|constant) ', text, re.M):
                gdefs.setdefault(m.group(1), []).append(mod)
        exp = os.path.join(ir.REPO, 'maa/export.sym')
        ck.need(os.path.isfile(exp), 'maa/export.sym')
        exported = [l.strip() for l in open(exp) if l.strip() and not l.startswith('#')]
        for n, (kind, ty, line) in sorted(decls.items()):
            where = '%s:%s' % (H, line)
            nm = 'what the header declares is defined in the library'
            if kind == 'FunctionDecl':
                if n not in defs:
                    ck.violated(n, nm, 'the function %s %s is declared but defined in no module' % (n, ty), where, [], sig=n + ':undefined')
                    continue
                if len(defs[n]) > 1:
                    ck.violated(n, nm, 'the function %s is defined in %s' % (n, [x[0] for x in defs[n]]), where, [], sig=n + ':twice')
                    continue
                ck.ok(n, nm)
                nm = 'the definition has the declared type'
                w = want.get(n, {}).get('declare')
                if w is None:
                    ck.undecided(n, nm, 'no declaration seen')
                elif w == defs[n][0][1]:
                    ck.ok(n, nm)
                else:
                    ck.violated(n, nm, 'declared as %s(%s), defined in %s.c as %s(%s)' % (w[0], ', '.join(w[1]), defs[n][0][0], defs[n][0][1][0], ', '.join(defs[n][0][1][1])), where, [], sig=n + ':type')
            else:
                if n not in gdefs:
                    ck.violated(n, nm, 'the variable %s is declared but defined in no module' % n, where, [], sig=n + ':undefined')
                    continue
                ck.ok(n, nm)
            nm = 'what the header declares is exported'
            if n in exported:
                ck.ok(n, nm)
            else:
                ck.violated(n, nm, '%s is not in maa/export.sym: a client cannot be linked with the shared library' % n, where, [], sig=n + ':hidden')
        nm = 'what is exported is defined'
        for n in exported:
            if n in defs or n in gdefs:
                ck.ok('export.sym', nm)
            else:
                ck.violated('export.sym', nm, '%s is exported but defined in no module' % n, 'maa/export.sym', [], sig=n + ':export')
        ck.extra['declared'] = {'functions': len(funs), 'variables': len(decls) - len(funs), 'exported': len(exported)}

        nm = 'the library can be built with and without magic numbers'
        for lab, ext in (('with', ()), ('without', ('-DMAA_MAGIC=0', '-Werror=implicit-function-declaration'))):
            try:
                ir.build_ir(ir.REPO, None, passes='verify', extra=ext)
                ck.ok('library', nm)
            except ir.AnalysisBroken as x:
                ck.violated('library', nm, '%s magic numbers: %s' % (lab, first_error(str(x))), H, [], sig='build-' + lab)
        # ------------------------------------------------------------ macros
        names = macro_names(d)
        # every kind of handle its own type: a macro that hands one where another belongs does not compile
        text = open(os.path.join(ir.REPO, 'maa/maa.h')).read()
        strong = re.sub(r'typedef\s+void\s*\*\s*(\w+)\s*;', r'typedef struct \1_handle *\1;', text)
        sd = os.path.join(d, 'strong')
        os.mkdir(sd)
        open(os.path.join(sd, 'maa.h'), 'w').write(strong)
        used = set()

        def compiles(name, body):
            used.update(x for x in names if re.search(r'\b%s\b' % x, body))
            nm = 'the macro compiles when used as documented'
            ck.entries.append(name)
            w = ['-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types-discards-qualifiers']
            for lab, inc in (('as it is', []), ('each handle its own type', ['-I' + sd])):
                p = os.path.join(d, 'u.c')
                open(p, 'w').write('#include <maa.h>\n' + body)
                r = subprocess.run([ir.CLANG, '-fsyntax-only', '-Wno-everything'] + w + inc + ir.base_flags(ir.REPO, d) + [p], capture_output=True, text=True)
                if r.returncode:
                    ck.violated(name, nm, '%s: %s' % (lab, first_error(r.stderr)), H, [], sig=name + ':compile')
                    return False
            ck.ok(name, nm)
            return True

        consts = sorted(n for n, fn in names.items() if not fn and n not in ('_MAA_H_', '__attribute__'))
        for n in consts:
            compiles(n, 'long long client(void) { return (long long)(%s); }\n' % n)
        vals = macros(consts)
        nm = 'flags that can be combined are different bits'
        for fam in (['ARG_NO_ESCAPE', 'ARG_NO_QUOTE'], ['PR_USE_STDIN', 'PR_USE_STDOUT', 'PR_USE_STDERR', 'PR_CREATE_STDIN', 'PR_CREATE_STDOUT', 'PR_CREATE_STDERR', 'PR_STDERR_TO_STDOUT'], ['LOG_OPTION_FULL', 'LOG_OPTION_NO_FULL']):
            fam = [x for x in fam if x in vals]
            for i, x in enumerate(fam):
                both = [y for y in fam[:i] if vals[x] & vals[y]]
                if vals[x] and not both:
                    ck.ok('constants', nm)
                else:
                    ck.violated(x, nm, '%s is %#x%s' % (x, vals[x], ', %s is %#x' % (both[0], vals[both[0]]) if both else ''), H, [], sig=x + ':bits')

        def client(body, name):
            r = clang(['-w', '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-fno-builtin', '-S', '-emit-llvm', '-o', os.path.join(d, 'c.ll')], d, '#include <maa.h>\n' + body, 'c.c')
            if r.returncode:
                raise AnchorLost('client %s: %s' % (name, r.stderr[:200]))
            r = subprocess.run([ir.OPT, '-S', '-passes=mem2reg', os.path.join(d, 'c.ll'), '-o', '-'], capture_output=True, text=True)
            P = ir.Program({'client': r.stdout})
            e = E.Engine(P)
            e.pathwise = 30
            return e

        def elem(T, i):
            return app('position', T, const(i), ptr=True)

        def walk_models(e, fam, n):
            """positions of a container with n elements"""
            def pos(st, p):
                a = single(st.norm(p))
                if a is None or a.fn != 'position':
                    raise GiveUp('position %s' % p)
                return a.args[0], a.args[1].c

            def at(st, T, i):
                if i >= n(T):
                    return ZERO
                st.facts = st.facts.assume(ne(elem(T, i))) or st.facts
                return elem(T, i)

            def init(en, st, ins, a):
                en.event(st, 'init', list(a), None, ins)
                return at(st, st.norm(a[0]), 0)

            def nxt(en, st, ins, a):
                p = a[-1]
                if st.norm(p) is ZERO:
                    raise E.Fault('next of no position')
                T, i = pos(st, p)
                if len(a) > 1 and st.norm(a[0]) is not T:
                    st.errs = st.errs + (('wrong-container', en.prog.loc(ins), 'the position of %s is advanced in %s' % (T, a[0]), ''),)
                    raise E.Fault('wrong-container')
                return at(st, T, i + 1)

            def get(en, st, ins, a):
                if st.norm(a[0]) is ZERO:
                    st.errs = st.errs + (('no-element', en.prog.loc(ins), 'an element is fetched beyond the last', ''),)
                    raise E.Fault('no-element')
                T, i = pos(st, a[0])
                if len(a) > 1:
                    en.write(st, a[1], 8, app('key', T, const(i), ptr=True), en.prog.loc(ins))
                return app('datum', T, const(i), ptr=True)
            e.models.update({fam + '_init_position': init, fam + '_next_position': nxt, fam + '_get_position': get})
            rec(e)

        def rec(e):
            def show(en, st, ins, a):
                en.event(st, 'show', [st.norm(x) if isinstance(x, Lin) else x for x in a], None, ins)
                return None
            e.models['show'] = show

        def shown(o):
            return [tuple(ev[2].args) for ev in flat(o.st.events) if ev[2].name == 'show']
        L1, L2 = sym('container', ptr=True), sym('container2', ptr=True)
        for name, body in USES:
            if not compiles(name, body):
                continue
            fam = FAMILY[name]
            for n in range(4):
                e = client(body, name)
                walk_models(e, fam, lambda T: n)
                st = e.new_state()

                def post(o, n=n):
                    k = lambda i: app('key', L1, const(i), ptr=True)
                    v = lambda i: app('datum', L1, const(i), ptr=True)
                    w = {'HSH_ITERATE': lambda i: (k(i), v(i)), 'HSH_ITERATE_KEYS': lambda i: (k(i), ZERO), 'STR_ITERATE': lambda i: (k(i), ZERO)}.get(name, lambda i: (v(i), ZERO))
                    nm = 'the loop shows every element once, in the order of the positions'
                    got, exp = shown(o), [w(i) for i in range(n)]
                    (o.good(nm) if got == exp else o.fail(nm, 'of %d elements the loop shows %s' % (n, got)))
                runc(ck, e, st, [L1], post, '%s over %d elements' % (name, n))
        if compiles('LST_ITERATE2', LIST2):
            for n in range(3):
                for m in range(3):
                    e = client(LIST2, 'LST_ITERATE2')
                    walk_models(e, 'lst', lambda T: n if T is L1 else m)
                    st = e.new_state()

                    def post(o, n=n, m=m):
                        nm = 'the loop shows the pairs of elements in the same place'
                        got, exp = shown(o), [(app('datum', L1, const(i), ptr=True), app('datum', L2, const(i), ptr=True)) for i in range(min(n, m))]
                        (o.good(nm) if got == exp else o.fail(nm, 'of %d and %d elements the loop shows %s' % (n, m, got)))
                    runc(ck, e, st, [L1, L2], post, 'LST_ITERATE2 over %d and %d elements' % (n, m))
        for name, (T, fn) in sorted(ENDS.items()):
            body = 'void client(%s T) { %s(T); }\n' % (T, name)
            if not compiles(name, body):
                continue
            e = client(body, name)

            def ro(en, st, ins, a, fn=fn):
                en.event(st, fn, list(a), None, ins)
                return en.fresh(st, 'old', rng=(0, 1))
            e.models[fn] = ro
            st = e.new_state()

            def post(o):
                nm = 'the protection is taken off that container'
                evs = [x[2] for x in flat(o.st.events)]
                ok = [x for x in evs if x.name == fn]
                if len(ok) == 1 and o.st.norm(ok[0].args[0]) is L1 and o.st.norm(ok[0].args[1]) is ZERO:
                    o.good(nm)
                elif len(evs) != len(ok):
                    o.undec(nm, 'calls %s' % [x.name for x in evs])
                else:
                    o.fail(nm, 'calls %s' % [(x.name, x.args) for x in evs])
            runc(ck, e, st, [L1], post, name)
        for name, body in sorted(STEPS.items()):
            compiles(name, SHOW + body + '\n')
        # ------------------------------------------------- all of them, and no other
        left = sorted(set(names) - used - set(consts) - {'_MAA_H_', '__attribute__'})
        for n in left:
            ck.undecided(n, 'the macro compiles when used as documented', 'no documented use of this macro is known')
        ck.extra['macros'] = {'constants': len(consts), 'function_like': len([n for n in names if names[n]])}
    ck.rule('declared names are read from the syntax tree of the header, definitions from the compiled modules named in maa/Makefile, exports from maa/export.sym')
    ck.rule('every macro has a client that uses it as documented; the client must compile, also with every handle type made distinct')
    ck.finish('static: syntax-tree query over the header against the definitions and the export list; compile-time witnesses for the macros (type-level encoding of handles) and abstract interpretation of the loops they expand to', level='other', minimum=400)


def runc(ck, e, st, args, post, lab):
    ck.entries.append(lab)
    try:
        outs = e.run(st, e.prog.func('client'), args)
    except GiveUp as g:
        ck.undecided(lab, 'analysis', g)
        return
    for o in outs:
        ck.judge(lab, 'client', e, o, post)


def first_error(s):
    for l in s.splitlines():
        if 'error:' in l:
            return re.sub(r'^\S*/', '', l)
    return s[:200]
