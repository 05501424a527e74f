"""C27: the library can be shut down and used again."""
import itertools
import hashmodel as HM
import memmodel as MM
import vararg as V
import text as X
from props import c16, c26, c28
from spec import *

FATAL = ('err_fatal', 'err_internal', 'err_fatal_errno')
CLOCKS = ('gettimeofday', 'getrusage')


def engine(ck):
    e = c26.setup(ck)
    e.skip_contained = True
    V.install(e)
    MM.install(e)
    find = e.models.get('str_find')
    c16.setup(ck, e)
    if find is None:
        e.models.pop('str_find', None)      # the pool itself is analysed
    else:
        e.models['str_find'] = find
    c28.arg_models(e)
    e.distinct_keys = set(e.distinct_keys) | {c16.ID, c16.NAME}

    # every call of the system succeeds here (C16 looks at the others)
    def only(name):
        many = e.models[name]

        def m(en, st, ins, a):
            r = many(en, st, ins, a)
            return r[:1] if isinstance(r, list) else r
        e.models[name] = m
    for n in ('write', 'open', 'open64'):
        only(n)
    return e


class Step:
    """one call of a scenario: args(env) -> list; judge(o, noret, env) -> new env or None to end it here"""

    def __init__(s, fn, args, judge=None):
        s.fn, s.args, s.judge = fn, args, judge


def returns(o, noret, env):
    nm = 'the call can be made'
    if noret is not None:
        o.fail(nm, 'ends in %s' % noret)
        return None
    o.good(nm)
    return env


def scenario(ck, e, st, steps, label, env=None):
    """every way through the steps; faults and unexpected ends are judged at each one"""
    env_given = env is not None
    work = [(st, env or {}, 0)]
    n = 0
    while work:
        st, env, i = work.pop()
        if i == len(steps):
            continue
        n += 1
        if n > 400:
            return ck.undecided(steps[0].fn, 'scenario', 'too many ways: ' + label)
        stp = steps[i]
        s2 = st.copy()
        s2.events, s2.path, s2.errs, s2.term, s2.retval, s2.frames = (), (), (), None, None, []
        for k in ('errno', 'eintr', 'vaprob', 'valive', 'asformat'):
            s2.extra.pop(k, None)
        e.steps = 0
        nxt = []

        def post(o, noret=None):
            env2 = dict(env)
            env2['heap'] = env.get('heap', ()) + tuple(x[2] for x in flat(o.st.events) if x[2].name in ('malloc', 'calloc', 'realloc', 'strdup') and isinstance(x[2].ret, Lin) and not x[0])
            r = (stp.judge or returns)(o, noret, env2)
            if r is not None:
                nxt.append((o, r))
        ck.run(stp.fn, e, s2, stp.args(env, s2) if env_given else stp.args(env), post, label=label + ' #%d' % (i + 1), on_noreturn=lambda o, how: post(o, how))
        for o, r in nxt:
            if not any(k == 'bad' for k, _, _ in o.results):
                s3 = o.st.copy()
                s3.term = None
                work.append((s3, r, i + 1))


def run(ck):
    M = macros(['MAA_PR'])
    # ---- what a module does, before and after shutdown
    def build():
        e = engine(ck)
        st = e.new_state()
        L = lambda nm, b: literal(e, st, nm, b)
        A, B, SYM, FORM, FILE, LINE, TIM, PROG, FLAG, OPT = (L(n, b) for n, b in (
            ('a', b'alpha'), ('b', b'beta'), ('symbol', b'T_A'), ('form', b'plus'), ('file', b'f.c'), ('line', b'x = 1\n'), ('timer', b'lap'), ('prog', b'prog'), ('flag', b'mine'), ('option', b'deep')))
        for p in (c16.ID, c16.NAME, c16.U, c16.FMT):
            st.facts = st.facts.assume(ne(p)) or st.facts
        for p in (sym('cmp', ptr=True), sym('key', ptr=True)):
            st.facts = st.facts.assume(ne(p)) or st.facts
        for s in ('stdout', 'stderr'):
            e.globaddr(ck.prog.func('log_stream').mod, s)
            st.facts = st.facts.assume(ne(sub(c16.U, app('gmem', s, ZERO, 8, ptr=True)))) or st.facts

        def textis(want, nm):
            def j(o, noret, env):
                if noret is not None:
                    o.fail(nm, 'ends in %s' % noret)
                    return None
                r = o.ret
                if want is None:
                    o.must(o.e.ptr_eq(o.st, r, ZERO), nm, 'gives %s' % r)
                    return env
                if r is ZERO:
                    o.fail(nm, 'gives NULL')
                    return None
                root, idx = o.e.root_of(o.st, r)
                if o.e.is_freed(o.st, root, idx):
                    o.fail(nm, 'gives memory that is released')
                    return None
                t = X.concrete(o.e, o.st, r)
                (o.good(nm) if t == want else o.undec(nm, 'text not known') if t is None else o.fail(nm, 'gives %r' % t))
                return env
            return j

        def value(test, nm):
            def j(o, noret, env):
                if noret is not None:
                    o.fail(nm, 'ends in %s' % noret)
                    return None
                o.must(test(o.ret), nm, 'gives %s' % o.ret)
                return env
            return j

        def fatal(nm):
            def j(o, noret, env):
                (o.good(nm) if noret in FATAL else o.fail(nm, 'the call returns' if noret is None else noret))
                return None
            return j

        def keep(k):
            def j(o, noret, env):
                if returns(o, noret, env) is None:
                    return None
                env[k] = o.ret
                return env
            return j
        c = lambda *a: (lambda env: list(a))
        S = {}
        # module: steps of use, probes of a fresh module (last one may end the scenario), own shutdown
        S['strings'] = ([Step('str_find', c(A), textis(b'alpha', 'an interned string is found again')), Step('str_exists', c(A), value(ne, 'an interned string exists'))],
                        [Step('str_exists', c(A), value(eq, 'nothing is interned after shutdown'))], 'str_destroy')
        S['forms'] = ([Step('prs_register_concrete', c(SYM, FORM)), Step('prs_concrete', c(SYM), textis(b'plus', 'a registered form is found'))],
                      [Step('prs_concrete', c(SYM), textis(None, 'no form is registered after shutdown'))], '_prs_shutdown')

        S['source'] = ([Step('src_new_file', c(FILE)), Step('src_line', c(LINE, const(6)), textis(b'x = 1\n', 'a line is stored')), Step('src_get', c(const(2)), keep('pos')),
                        Step('src_filename', lambda env: [env['pos']], textis(b'f.c', 'a position knows its file')), Step('src_source_line', lambda env: [env['pos']], textis(b'x = 1\n', 'a position knows its line'))],
                       [Step('src_linenumber', c(ZERO), fatal('no source after shutdown'))], 'src_destroy')
        S['source2'] = ([Step('src_line', c(LINE, const(6)), textis(b'x = 1\n', 'a line is stored')), Step('src_get', c(const(2)), keep('pos')),
                         Step('src_linenumber', lambda env: [env['pos']], value(lambda x: eq(x, ONE), 'lines are counted from the start again')),
                         Step('src_filename', lambda env: [env['pos']], textis(None, 'no file is current before one is named')), Step('src_new_file', c(FILE))],
                        [], 'src_destroy')
        S['lists'] = ([Step('lst_create', c(), keep('list')), Step('lst_append', lambda env: [env['list'], A]), Step('lst_push', lambda env: [env['list'], B]), Step('lst_pop', lambda env: [env['list']]), Step('lst_destroy', lambda env: [env['list']])],
                      [], '_lst_shutdown')
        S['skip lists'] = ([Step('sl_create', c(sym('cmp', ptr=True), sym('key', ptr=True), ZERO), keep('sl')), Step('sl_destroy', lambda env: [env['sl']])], [], '_sl_shutdown')
        S['timers'] = ([Step('tim_start', c(TIM)), Step('tim_stop', c(TIM))], [Step('tim_stop', c(TIM), fatal('no timer after shutdown'))], '_tim_shutdown')
        S['named timers'] = ([Step('str_find', c(B), keep('name')), Step('tim_start', lambda env: [env['name']]), Step('tim_stop', c(B))], [], None)
        S['debug flags'] = ([Step('dbg_register', c(ONE, FLAG)), Step('dbg_set', c(FLAG)), Step('dbg_test', c(ONE), value(ne, 'a set flag is set'))],
                            [Step('dbg_test', c(ONE), value(eq, 'no flag is set after shutdown'))], 'dbg_destroy')
        S['option flags'] = ([Step('flg_register', c(ONE, OPT)), Step('flg_set', c(OPT)), Step('flg_test', c(ONE), value(ne, 'a set flag is set'))],
                             [Step('flg_test', c(ONE), value(eq, 'no flag is set after shutdown'))], 'flg_destroy')
        S['log'] = ([Step('log_close', c()), Step('log_stream', c(c16.ID, c16.U)), Step('log_info', c(c16.FMT))], [Step('log_info', c(c16.FMT))], None)
        S['log file'] = ([Step('log_close', c()), Step('log_file', c(c16.ID, c16.NAME), lambda o, noret, env: env if noret is None else None), Step('log_info', c(c16.FMT), lambda o, noret, env: env if noret is None else None)],
                         [Step('log_info', c(c16.FMT), lambda o, noret, env: env if noret is None else None)], None)
        init, shut = Step('maa_init', c(PROG)), Step('maa_shutdown', c(), released)
        return e, st, S, init, shut

    def released(o, noret, env):
        if returns(o, noret, env) is None:
            return None
        nm = 'every table is released'
        live = ['%s' % (k[1],) for k, v in o.st.extra.items() if isinstance(k, tuple) and k[0] == 'tab' and v != 'destroyed'] + \
               ['%s' % (k[1],) for k, v in o.st.extra.items() if isinstance(k, tuple) and k[0] == 'mem' and v[0] != 'destroyed']
        (o.good if not live else lambda n: o.fail(n, 'still there: %s' % live))(nm)
        left = []
        for ev in env.get('heap', ()):
            try:
                root, idx = o.e.root_of(o.st, ev.ret)
            except GiveUp:
                continue
            if root[0] == 'A' and not o.e.is_freed(o.st, root, idx) and 'log.c' not in str(root[1]):
                left.append('%s from %s' % (ev.ret, ev.loc))
        (o.good if not left else lambda n: o.fail(n, 'not released: %s' % left))('the memory of the modules is released')
        return env
    e, st, S, init, shut = build()
    names = list(S)
    short = lambda xs: '+'.join(xs) or 'nothing'

    def cycle(xs, ys):
        """use xs, shut down, look, use ys, shut down"""
        steps = [init] + [s for x in xs for s in S[x][0]] + [shut]
        if ys is None:
            # without initialising again: every probe on its own
            return steps
        return steps + [init] + [s for y in ys for s in S[y][0]] + [shut, init, shut]
    combos = [()] + [(x,) for x in names]
    for x in names:
        for y in names:
            if x != y and not {x, y} <= {'source', 'source2'} and not {x, y} <= {'log', 'log file'}:
                combos.append((x, y))
    combos.append(tuple(n for n in names if n not in ('log file', 'source2')))
    ck.extra['scenarios'] = 0
    for xs in combos:
        for ys in ((xs,) if len(xs) > 1 else (xs, None)):
            if ys is None:
                for x in xs:
                    for p in S[x][1]:
                        ck.extra['scenarios'] += 1
                        scenario(ck, e, st, cycle(xs, None) + [p], 'shut down, then %s' % x)
                continue
            ck.extra['scenarios'] += 1
            scenario(ck, e, st, cycle(xs, ys), '%s, shut down, %s' % (short(xs), short(ys)))
    # used after shutdown without initialising again, and any other module after one
    for x in names:
        for y in names:
            if y in ('log', 'log file') and x in ('log', 'log file'):
                continue
            ck.extra['scenarios'] += 1
            scenario(ck, e, st, [init] + S[x][0] + [shut] + S[y][0], '%s, shut down, %s without init' % (x, y))
    # a module's own shutdown: twice, without use, and used again
    for x in names:
        f = S[x][2]
        if f is None:
            continue
        d = Step(f, lambda env: [])
        for steps, lab in (([d, d], 'unused'), (S[x][0] + [d, d] + S[x][0] + [d], 'used again')):
            ck.extra['scenarios'] += 1
            scenario(ck, e, st, steps, '%s: %s' % (f, lab))
        for p in S[x][1]:
            ck.extra['scenarios'] += 1
            scenario(ck, e, st, S[x][0] + [d, p], '%s' % f)
    return dict(minimum=200)
