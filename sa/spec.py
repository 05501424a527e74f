"""Checks: pre-state builders, oracles over abstract final states, verdicts, evidence."""
import ctypes, json, os, sys, threading, time, traceback
import ir, eng as E
from terms import *
from terms import _eqn, mk_udiv
from facts import Facts
from eng import NeedSplit, GiveUp, Unresolved, Ev, EvFor, EvIf, Entry, strlen_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEBUG = bool(os.environ.get('VERIF_DEBUG'))
EVID = os.path.join(VERIF, 'evidence')


class AnchorLost(Exception):
    pass


class TimeUp(BaseException):
    """raised in the analysing thread when an entry point exceeds its share of time"""


class Watch:
    """bounds the time of one entry point and of the whole check"""
    PER_ENTRY, TOTAL = float(os.environ.get('VERIF_ENTRY_S', '90')), float(os.environ.get('VERIF_TOTAL_S', '700'))

    def __init__(s):
        s.lock, s.tid, s.until, s.limit = threading.Lock(), None, None, None
        s.end = time.time() + s.TOTAL
        threading.stack_size(0)
        t = threading.Thread(target=s.loop, daemon=True)
        t.start()

    def loop(s):
        while True:
            time.sleep(0.5)
            with s.lock:
                if s.tid is not None and time.time() > s.until:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(s.tid), ctypes.py_object(TimeUp))

    def __enter__(s):
        with s.lock:
            s.until = min(time.time() + min(s.PER_ENTRY, s.limit or s.PER_ENTRY), s.end)
            s.tid = threading.get_ident()

    def __exit__(s, *a):
        with s.lock:
            s.tid = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(threading.get_ident()), None)
        return False


# values the domain does not interpret: a failed equation over them is 'undecided', not a violation
WEAK = {'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'trunc', 'zext', 'uns', 'mul', 'sdiv', 'srem', 'strlenx', 'hv', 'fadd', 'fsub', 'fmul', 'fdiv', 'udiv', 'gtab', 'fcmp', 'sext', 'unk'}


def weak(x):
    return sorted({a.fn for a in deep_atoms(x) if a.fn in WEAK})


class Check:
    def __init__(s, pid, title, tier='quick'):
        s.pid, s.title, s.tier = pid, title, tier
        s.t0 = time.time()
        s.obs = {}            # (function, obligation) -> dict
        s.viol = []
        s.undec = []
        s.samples = []
        s.stats = {'paths': 0, 'loops': 0, 'loops_exact': 0, 'loops_havoc': 0, 'splits': 0, 'calls_inlined': 0}
        s.functions = set()
        s.entries = []
        s.rules = []
        s.extra = {}
        s.known = load_known(pid)
        s.known_hit = []
        s._prog = None
        s.watch = Watch()

    @property
    def prog(s):
        if s._prog is None:
            s._prog = ir.load()
        return s._prog

    # ---- bookkeeping
    def ob(s, fn, name):
        return s.obs.setdefault((fn, name), {'ok': 0, 'undecided': 0, 'violated': 0})

    def ok(s, fn, name):
        s.ob(fn, name)['ok'] += 1

    def undecided(s, fn, name, why):
        s.ob(fn, name)['undecided'] += 1
        if len(s.undec) < 400:
            s.undec.append({'function': fn, 'obligation': name, 'why': str(why)[:400]})

    def violated(s, fn, name, msg, where='', path=(), sig=None):
        s.ob(fn, name)['violated'] += 1
        sig = sig or '%s:%s' % (fn, name)
        for k in s.known:
            if k == sig:
                if sig not in s.known_hit:
                    s.known_hit.append(sig)
                return
        s.viol.append({'signature': sig, 'function': fn, 'rule': name, 'where': where, 'message': str(msg)[:1500], 'path': [str(p)[:300] for p in path][:40]})

    def rule(s, text):
        s.rules.append(text)

    def need(s, cond, what):
        if not cond:
            raise AnchorLost(what)
        return cond

    # ---- abstract execution of one entry point
    def engine(s, **kw):
        e = E.Engine(s.prog)
        e.malloc_may_fail = False
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def run(s, fn, e, st, args, oracle, label=None, faults=True, on_noreturn=None):
        """analyse fn from the abstract pre-state st and judge every way it can end; where the
        pre-state of every size leaves obligations undecided, small pre-states are analysed as well"""
        shapes = () if s.watch.tid is not None else st.extra.pop('shapes', ())
        st0 = st.copy() if shapes else None
        before = s.nund()
        outs = s.run0(fn, e, st, args, oracle, label, faults, on_noreturn, quick=40 if shapes else None)
        if shapes and (s.nund() > before or s.tier == 'thorough') and not s.viol:
            for lab, conds in shapes:
                s2 = st0.copy()
                f = s2.facts
                for c in conds:
                    f = f and f.assume(s2.norm(c))
                if f is None:
                    continue
                s2.facts = f
                for k in ('loopfails', 'impatient_hits'):
                    e.__dict__.pop(k, None)
                e.unroll = max(getattr(e, 'unroll', 0), 6)
                s.run0(fn, e, s2, args, oracle, '%s, %s' % (label, lab) if label else lab, faults, on_noreturn, quick=25)
                if s.viol:
                    break
        return outs

    def nund(s):
        return sum(v['undecided'] for v in s.obs.values())

    def run0(s, fn, e, st, args, oracle, label=None, faults=True, on_noreturn=None, quick=None):
        if s.watch.tid is not None:
            return s.run1(fn, e, st, args, oracle, label, faults, on_noreturn)
        try:
            s.watch.limit = quick
            with s.watch:
                return s.run1(fn, e, st, args, oracle, label, faults, on_noreturn)
        except TimeUp:
            lab = s.entries[-1]
            s.undecided(lab, 'analysis', 'out of time')
            outs = list(getattr(e, 'partial', ()))[:2000]
            name = fn if isinstance(fn, str) else fn.name
            try:
                with s.watch:
                    for o in outs:
                        s.judge(lab, name, e, o, oracle, faults, on_noreturn)
            except TimeUp:
                pass
            return []

    def probe(s):
        """a throw-away copy whose verdicts are not reported (to find out which candidate invariant is kept)"""
        import copy
        c = copy.copy(s)
        c.obs, c.viol, c.undec, c.samples, c.entries, c.known_hit = {}, [], [], [], [], []
        c.stats, c.functions = dict.fromkeys(s.stats, 0), set()
        return c

    def run1(s, fn, e, st, args, oracle, label=None, faults=True, on_noreturn=None):
        f = s.prog.func(fn) if isinstance(fn, str) else fn
        name = fn if isinstance(fn, str) else fn.name
        s.need(f is not None, 'function %s' % name)
        lab = name if not label else '%s [%s]' % (name, label)
        s.entries.append(lab)
        try:
            outs = e.run(st, f, args)
        except GiveUp as g:
            s.undecided(lab, 'analysis', g)
            outs = list(e.partial)[:2000]
        except RecursionError:
            s.undecided(lab, 'analysis', 'recursion')
            outs = []
        except (AnchorLost, ir.AnalysisBroken):
            raise
        except Exception as x:
            if DEBUG:
                raise
            s.undecided(lab, 'analysis', 'internal: %s %s' % (type(x).__name__, x))
            outs = []
        for k in s.stats:
            s.stats[k] += e.stats.get(k, 0)
            e.stats[k] = 0
        s.functions |= e.stats['functions']
        n = 0
        for o in outs:
            n += s.judge(lab, name, e, o, oracle, faults, on_noreturn)
        return outs

    def judge(s, lab, name, e, o, oracle, faults=True, on_noreturn=None):
        work = [(o, 0)]
        budget = 150
        while work:
            st, depth = work.pop()
            if not settle(st):
                continue        # a case that cannot happen
            budget -= 1
            if budget < 0:
                s.undecided(lab, 'cases', 'too many case splits')
                return 0
            term = st.term or ''
            taint = taints(st)
            if term.startswith('giveup'):
                s.undecided(lab, 'analysis', term)
                continue
            if term.startswith('fault') or term.startswith('soft'):
                kind, loc, msg, stack = st.errs[-1]
                if not faults:
                    continue
                c = opencase(st) if depth < 6 else None
                if not consistent(st.facts):
                    continue
                if taint or kind.endswith('?'):
                    s.undecided(lab, kind, '%s %s %s' % (loc, msg, taint))
                elif c is not None:
                    work += [(x, depth + 1) for x in e.split(st, c)]
                else:
                    s.violated(lab, kind, '%s (call stack %s)' % (msg, stack), loc, [showc(c) for c in st.path], sig='%s:%s' % (name, kind))
                continue
            if term == 'unreachable':
                continue
            out = Out(s, lab, name, e, st.copy())
            try:
                if term.startswith('noreturn'):
                    if on_noreturn is not None:
                        on_noreturn(out, term[9:])
                    else:
                        out.fail('returns', 'the call ends in %s on valid input' % term[9:])
                else:
                    oracle(out)
            except NeedSplit as ns:
                c = st.norm(ns.cond)
                if st.decide(c) is not None:
                    s.undecided(lab, 'cases', 'cannot split on %s' % showc(c))
                    continue
                work += [(x, depth) for x in e.split(st, c)]
                continue
            except (GiveUp, Unresolved, E.Fault) as g:
                s.undecided(lab, 'post-state', '%s %s' % (type(g).__name__, g))
                continue
            except (AnchorLost, ir.AnalysisBroken):
                raise
            except Exception as x:
                if DEBUG:
                    raise
                s.undecided(lab, 'post-state', 'internal: %s %s' % (type(x).__name__, x))
                continue
            bad = not taint and any(k == 'bad' for k, _, _ in out.results)
            if bad and not consistent(st.facts):
                continue
            c = opencase(st) if depth < 6 and bad else None
            if c is not None:
                work += [(x, depth + 1) for x in e.split(st, c)]
                continue
            for kind, nm, msg in out.results:
                if kind == 'ok':
                    s.ok(lab, nm)
                elif kind == 'bad' and not taint:
                    s.violated(lab, nm, msg, e.prog.funcs[e.prog.func(name).key].mod.name + '.c', [showc(c) for c in st.path], sig='%s:%s' % (name, nm))
                else:
                    s.undecided(lab, nm, '%s %s' % (msg, taint))
            if len(s.samples) < 6 and out.results:
                s.samples.append({'function': lab, 'end': term, 'path': [showc(c)[:120] for c in st.path][:8], 'obligations': sorted({r[1] for r in out.results})})
        return 1

    # ---- the end
    def finish(s, technique, level='other', minimum=1):
        n = sum(v['ok'] + v['undecided'] + v['violated'] for v in s.obs.values())
        okn = sum(v['ok'] for v in s.obs.values())
        und = sum(v['undecided'] for v in s.obs.values())
        if n < minimum and not s.viol and not und:
            print('ANALYSIS BROKEN: %s: only %d obligations (expected at least %d)' % (s.pid, n, minimum))
            sys.exit(2)
        cov = {
            'explanation': technique,
            'obligations': n, 'discharged': okn, 'undecided': und, 'violated': n - okn - und,
            'entry_points': s.entries if len(s.entries) <= 200 else summary(s.entries), 'functions_analysed': sorted(s.functions), 'analysis': s.stats,
            'rules': s.rules, 'per_obligation': grouped(s.obs),
            'undecided_list': s.undec[:60], 'samples': s.samples, 'known_findings_seen': s.known_hit,
            'violations': s.viol[:20],
        }
        cov.update(s.extra)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov, 'wall_s': round(time.time() - s.t0, 2)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, s.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d obligations over %d entry points (%d functions, %d abstract paths, %d loops of which %d with an inductive summary): %d hold, %d undecided, %d violated; %.1fs'
              % (s.pid, s.title, n, len(s.entries), len(s.functions), s.stats['paths'], s.stats['loops'], s.stats['loops_exact'], okn, und, n - okn - und, time.time() - s.t0))
        for u in s.undec[:12]:
            print('  undecided: %s / %s: %s' % (u['function'], u['obligation'], u['why'][:160]))
        for k in s.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (s.pid, k + ' ' + s.known[k]))
        if s.viol:
            rp = os.path.join(EVID, s.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(s.viol, f, indent=1, default=str)
            for v in s.viol[:8]:
                print('  %s: rule "%s" at %s: %s' % (v['function'], v['rule'], v['where'], v['message'][:400]))
                if v['path']:
                    print('     path: ' + ' & '.join(v['path'])[:600])
            print('VIOLATION property=%s replay=%s' % (s.pid, os.path.relpath(rp, VERIF)))
            sys.exit(1)
        sys.exit(0)


def summary(entries):
    """{function: number of pre-states it was analysed from, with some of them"""
    r = {}
    for x in entries:
        fn, _, lab = x.partition(' [')
        d = r.setdefault(fn, {'entries': 0, 'for_example': []})
        d['entries'] += 1
        if len(d['for_example']) < 8 and lab and lab[:-1][:120] not in d['for_example']:
            d['for_example'].append(lab[:-1][:120])
    return r


def grouped(obs):
    if len(obs) <= 250:
        return {'%s | %s' % k: v for k, v in sorted(obs.items())}
    r = {}
    for (fn, nm), v in sorted(obs.items()):
        d = r.setdefault('%s | %s' % (fn.partition(' [')[0], nm), {'ok': 0, 'undecided': 0, 'violated': 0, 'entries': 0})
        for k in ('ok', 'undecided', 'violated'):
            d[k] += v[k]
        d['entries'] += 1
    return r


def load_known(pid):
    r = {}
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid:
                r[k['signature']] = k['what']
    return r


def cases(st):
    """the conditional values that the path conditions of a state mention"""
    seen = {}
    for c in st.path:
        for a in deep_atoms(c):
            if a.fn in ('ite', 'b2i') and isinstance(a.args[0], tuple) and a not in seen:
                inner = deep_atoms(a.args[0])
                if not any(x.fn in ('ite', 'b2i', 'psum', 'hv') or x.fn == 'sym' and str(x.args[0])[:2] in ('b!', 'j!') for x in inner):
                    seen[a] = 1
    return seen


def settle(st):
    """put the decided conditional values into what is known; False if that is contradictory"""
    if not same_texts(st):
        return False
    for _ in range(4):
        m = {}
        for a in cases(st):
            r = st.decide(st.norm(a.args[0]))
            if r is not None:
                m[a] = (ONE if r else ZERO) if a.fn == 'b2i' else (a.args[1] if r else a.args[2])
        if not m:
            return True
        new = []
        for c in st.path:
            d = c
            for _ in range(4):
                d2 = subst(d, m) if isinstance(d, tuple) else d
                if d2 == d:
                    break
                d = d2
            if d is not True:
                new.append(d)
            if d is not c and d != c:
                d = st.norm(d) if isinstance(d, tuple) else d
                if d is False or isinstance(d, tuple) and st.decide(d) is False:
                    return False
                if isinstance(d, tuple) and st.decide(d) is None:
                    f = st.facts.assume(d)
                    if f is None:
                        return False
                    st.facts = f
        st.path = tuple(new)
        for a, v in m.items():
            if isinstance(v, Lin):
                f = st.facts.assume(eq(st.norm(a.lin), st.norm(v)))
                if f is None:
                    return False
                st.facts = f
    return True


def same_texts(st):
    """a text found equal to a constant has the characters of the constant"""
    for c in st.path:
        if not (isinstance(c, tuple) and c[0] == 'eq'):
            continue
        a = c[1].t[0][0] if len(c[1].t) == 1 and c[1].c == 0 else None
        if a is None or a.fn != 'textcmp':
            continue
        w = [x for x in a.args if isinstance(x, str)]
        t = [single(x) for x in a.args if isinstance(x, Lin)]
        if len(w) != 1 or len(t) != 1 or t[0] is None or len(w[0]) > 32:
            continue
        for i, k in enumerate(w[0].encode('latin1') + b'\0'):
            f = st.facts.assume(eq(st.norm(app('char', t[0], const(i))), const((k ^ 128) - 128)))
            if f is None:
                return False
            st.facts = f
    return True


def consistent(f):
    """no inequation is refuted by the inequalities"""
    for l in f.nes:
        if f.unsat_with([add(l, ONE)]) and f.unsat_with([add(mul(l, -1), ONE)]):
            return False
    return True


def opencase(st):
    for a in sorted(cases(st), key=lambda a: a.id):
        c = st.norm(a.args[0])
        if st.decide(c) is None:
            return c
    return None


def taints(st):
    t = list(st.taint)
    for c in st.path:
        for a in deep_atoms(c):
            if a.fn == 'hv':
                t.append('path depends on an abstracted value %s' % a)
                break
    return t[:3]


class Out:
    """one abstract final state under judgement"""

    def __init__(s, ck, lab, name, e, st):
        s.ck, s.lab, s.name, s.e, s.st = ck, lab, name, e, st
        s.results = []

    @property
    def ret(s):
        v = s.st.retval
        if isinstance(v, Lin):
            return s.st.norm(v)
        if v is None:
            return None
        if isinstance(v, tuple) and v and v[0] == 'agg':
            return v
        return s.e.lin(s.st, v)

    def decide(s, c):
        return s.st.decide(c)

    def must(s, c, nm, msg='', strict=False):
        c = s.st.norm(c)
        r = s.st.decide(c)
        if r is None:
            c = s.resolve(c)
            r = s.st.decide(c)
        if r is None:
            w = weak(c)
            if w and not strict:
                s.results.append(('undec', nm, '%s: %s not interpreted (%s)' % (msg, showc(c), ','.join(w))))
                return None
            raise NeedSplit(c)
        s.results.append(('ok' if r else 'bad', nm, msg))
        return r

    def equal(s, a, b, nm, msg=''):
        """value equality, pointers structurally"""
        a, b = s.st.norm(a), s.st.norm(b)
        if E._anyptr(a) or E._anyptr(b):
            c = s.e.ptr_eq(s.st, a, b)
        else:
            c = eq(a, b)
        return s.must(c, nm, msg or 'is %s, must be %s' % (a, b))

    def need(s, c):
        c = s.st.norm(c)
        r = s.st.decide(c)
        if r is None:
            c = s.resolve(c)
            r = s.st.decide(c)
        if r is None:
            raise NeedSplit(c)
        return r

    def resolve(s, c):
        """a conditional value is judged case by case, innermost condition first; gives c without the decided cases"""
        for _ in range(40):
            m, open_ = {}, None
            for a in deep_atoms(c):
                if a.fn in ('ite', 'b2i'):
                    inner = deep_atoms(a.args[0])
                    if any(x.fn in ('ite', 'b2i', 'psum') for x in inner) or any(x.fn == 'sym' and str(x.args[0])[:2] in ('b!', 'j!') for x in inner):
                        continue
                    d = s.st.norm(a.args[0])
                    r = s.st.decide(d)
                    if r is None:
                        if open_ is None or a.id < open_[0]:
                            open_ = a.id, d
                    elif a.fn == 'b2i':
                        m[a] = ONE if r else ZERO
                    else:
                        m[a] = a.args[1] if r else a.args[2]
            if m:
                c = s.st.norm(subst(c, m))
                continue
            if open_:
                raise NeedSplit(open_[1])
            return c
        return c

    def isnull(s, p):
        return s.need(s.e.ptr_eq(s.st, s.st.norm(p), ZERO))

    def good(s, nm):
        s.results.append(('ok', nm, ''))

    def fail(s, nm, msg):
        s.results.append(('bad', nm, msg))

    def undec(s, nm, msg):
        s.results.append(('undec', nm, msg))

    def rd(s, p, size, ptr=False):
        return s.e.read(s.st, p, size, ir.PTR if ptr else ir.INTS[size * 8])

    def fld(s, p, fields, name):
        off, size, bt = fields[name]
        return s.rd(add(p, const(off)), size, bt)


# ------------------------------------------------------------------ small helpers
def macros(names, header='maa.h', extra=''):
    """integer values of header macros, evaluated by the compiler front end"""
    import subprocess, tempfile
    src = extra + '#include "%s"\n' % header + ''.join('long long C_%s = (long long)(%s);\n' % (n, n) for n in names)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'm.c')
        open(p, 'w').write(src)
        out = subprocess.run([ir.CLANG, '-S', '-emit-llvm', '-O0', '-w', ] + ir.base_flags(ir.REPO, d) + ['-o', '-', p], capture_output=True, text=True)
        if out.returncode:
            raise AnchorLost('macros %s: %s' % (names, out.stderr[:300]))
    import re
    r = {}
    for m in re.finditer(r'@C_(\w+) = .*?global i64 (-?\d+)', out.stdout):
        r[m.group(1)] = int(m.group(2))
    for n in names:
        if n not in r:
            raise AnchorLost('macro %s' % n)
    return r


def fields_of(prog, mod, tag):
    m = prog.mods.get(mod)
    if m is None or tag not in m.structs():
        raise AnchorLost('struct %s in %s.c' % (tag, mod))
    return {k: (o, z, isptr_md(m, b)) for k, (o, z, b) in m.structs()[tag].items()}


def isptr_md(m, b):
    while b:
        d = m.md.get(b, '')
        if 'DW_TAG_pointer_type' in d:
            return True
        if 'DW_TAG_typedef' in d or 'DW_TAG_const_type' in d or 'DW_TAG_volatile_type' in d:
            b = m.mdfields(b).get('baseType', '')[1:]
            continue
        return False
    return False


def obj(e, p, fields, vals):
    """contents of the object p points to: {field: value}"""
    by = {}
    for k, v in vals.items():
        if k not in fields:
            raise AnchorLost('field %s' % k)
        by[fields[k][0]] = v
    a = single(p)

    def h(st, root, idx, size, ty):
        o = idx[-1]
        if isconst(o):
            return by.get(o.c)
    e.regions[('P', a)] = h
    e.nonnull_atoms = getattr(e, 'nonnull_atoms', set()) | {a}
    return by


def literal(e, st, name, b, terminated=True):
    """a pointer argument to the text b"""
    p = sym(name, ptr=True)
    a = single(p)
    e.literals[a] = b
    e.extents[('P', a)] = const(len(b) + (1 if terminated else 0))
    st.facts = st.facts.assume(ne(p)) or st.facts
    if terminated:
        st.facts = st.facts.assume(eq(app('strlen', a), const(len(b)))) or st.facts
    else:
        st.facts = st.facts.assume(le(const(len(b)), app('strlen', a))) or st.facts
    return p


# ------------------------------------------------------------------ event coverage
def flat(evs, binders=(), guard=True):
    """quantified events: (binders, guard, Ev)"""
    out = []
    for x in evs:
        if isinstance(x, Ev):
            out.append((binders, guard, x))
        elif isinstance(x, EvFor):
            out += flat(x.body, binders + ((x.var, x.lo, x.hi),), guard)
        else:
            out += flat(x.a, binders, conj(guard, x.cond))
            out += flat(x.b, binders, conj(guard, neg(x.cond)))
    return out


def named(evs, *names):
    return [x for x in flat(evs) if x[2].name in names]


# ------------------------------------------------------------------ lists
def walk(o, p, nextoff, limit=12):
    """the sequence of nodes reachable from p: [('run', S(Atom), lo, hi) | ('node', ptr)]"""
    e, st = o.e, o.st
    segs = []
    while True:
        limit -= 1
        if limit < 0:
            raise GiveUp('walk does not end')
        p = st.norm(p)
        if p is ZERO:
            return segs
        a = single(p)
        if a is None:
            for x, k in p.t:
                if x.fn == 'ite':
                    raise NeedSplit(st.norm(x.args[0]))
            raise GiveUp('walk: pointer %s' % p)
        if a.fn != 'elem':
            if a.fn in ('alloc',):
                segs.append(('node', p))
                p = e.read(st, add(p, const(nextoff)), 8, ir.PTR)
                continue
            r = o.need(eq(p))
            if r:
                return segs
            segs.append(('node', p))
            p = e.read(st, add(p, const(nextoff)), 8, ir.PTR)
            continue
        S, i = a.args
        n = app('n', S)
        if o.need(le(n, i)):
            return segs
        root, idx = e.root_of(st, add(p, const(nextoff)))
        mods = []
        for en in st.log.get(root, ()):
            if not (isconst(en.idx[-1]) and en.idx[-1].c == nextoff):
                if not isconst(en.idx[-1]):
                    raise GiveUp('walk: symbolic field')
                continue
            if en.binders:
                raise GiveUp('walk: quantified link update')
            if en.guard is not True and not o.need(en.guard):
                continue
            same = True
            for x, y in zip(en.idx[:-2], idx[:-2]):
                if not o.need(eq(st.norm(x), st.norm(y))):
                    same = False
            if same:
                j = st.norm(en.idx[-2])
                if not o.need(lt(j, i)):
                    mods.append((j, en))
        if not mods:
            segs.append(('run', S, i, n))
            return segs
        best = mods[0]
        for m in mods[1:]:
            if o.need(lt(m[0], best[0])) or m[0] is best[0] or o.need(eq(m[0], best[0])):
                best = m
        if o.need(le(n, best[0])):
            segs.append(('run', S, i, n))
            return segs
        segs.append(('run', S, i, add(best[0], ONE)))
        p = best[1].val


def join(o, segs):
    out = []
    for s in segs:
        if s[0] == 'run':
            if o.need(le(s[3], s[2])):
                continue
            if out and out[-1][0] == 'run' and out[-1][1] is s[1] and o.st.decide(eq(out[-1][3], s[2])) is True:
                out[-1] = ('run', s[1], out[-1][2], s[3])
                continue
        out.append(s)
    return out


def tile(o, runs, lo, hi, holes=()):
    """do the runs, in any order, cover [lo,hi) minus the holes exactly once?"""
    rest = [r for r in runs]
    pos = lo
    n = 0
    holes = list(holes)
    while not o.need(le(hi, pos)):
        n += 1
        if n > 12:
            raise GiveUp('tile')
        for h in holes:
            if o.need(eq(h, pos)):
                pos = add(pos, ONE)
                holes.remove(h)
                break
        else:
            for r in rest:
                if o.need(eq(r[2], pos)):
                    if o.need(le(r[3], r[2])):
                        continue
                    pos = r[3]
                    rest.remove(r)
                    break
            else:
                return False
    return all(o.need(le(r[3], r[2])) for r in rest) and o.need(eq(pos, hi))


def main(mods):
    pass
