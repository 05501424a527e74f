"""C30: output goes to the stream given, or to standard output when none is given."""
from tableops import *

# output calls and the position of their stream (None: standard output)
WRITERS = {'fprintf': 0, 'vfprintf': 0, '__fprintf_chk': 0, '__vfprintf_chk': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, '_IO_putc': 1, 'putc_unlocked': 1,
           'fputc_unlocked': 1, 'fputs_unlocked': 1, 'fwrite': 3, 'fwrite_unlocked': 3, 'printf': None, 'vprintf': None, 'puts': None, 'putchar': None, 'putchar_unlocked': None}
LOGS = ('log_info', 'log_error', 'log_error_va', 'log_info_va')


def engine(ck):
    e = ck.engine()
    e.prefix, e.impatient = 1, 2        # every branch of an iteration shows in the first ones
    for n in LOGS:
        if ck.prog.func(n) is not None:
            e.models[n] = lambda en, st, ins, a: None
    if ck.prog.func('dbg_test') is not None:
        e.models['dbg_test'] = lambda en, st, ins, a: en.fresh(st, 'dbg_test', rng=(0, 1))
    return e


def judge(ck, given):
    S = sym('stream', ptr=True)
    so = app('gmem', 'stdout', ZERO, 8, ptr=True)

    def post(o):
        n = 0
        for binders, guard, ev in flat(o.st.events):
            if ev.name not in WRITERS:
                continue
            n += 1
            k = WRITERS[ev.name]
            x = so if k is None else o.st.norm(ev.args[k])
            want = S if given else so
            nm = 'a given stream gets all the output' if given else 'without a stream the output goes to standard output'
            if x is want or isstdout(x) and not given:
                o.good(nm)
            elif x is ZERO or o.st.decide(o.e.ptr_eq(o.st, x, ZERO)) is True:
                o.fail(nm, '%s at %s writes to a null stream' % (ev.name, ev.loc))
            elif x is S or isstdout(x) or isstderr(x):
                o.fail(nm, '%s at %s writes to %s' % (ev.name, ev.loc, x))
            else:
                o.undec(nm, '%s at %s writes to %s' % (ev.name, ev.loc, x))
        if n:
            o.good('something is printed')
        else:
            o.undec('something is printed', 'no output call')
    return post


def figures(F):
    def stats(en, st, ins, a):
        p = en.allocate(st, ins, const(max(o + z for o, z, _ in F.values())))
        for f, (off, z, _) in F.items():
            en.write(st, add(p, const(off)), z, sym('st_' + f, rng=(0, 1 << 30)), en.prog.loc(ins))
        return p
    return stats


def isstdout(x):
    a = single(x)
    return a is not None and a.fn == 'gmem' and a.args[0] == 'stdout'


def isstderr(x):
    a = single(x)
    return a is not None and a.fn == 'gmem' and a.args[0] == 'stderr'


def run(ck):
    S = sym('stream', ptr=True)

    def both(fn, start, args):
        for given in (True, False):
            e, st, more = start()
            st.facts = st.facts.assume(ne(app('gmem', 'stdout', ZERO, 8, ptr=True)))
            if given:
                st.facts = st.facts.assume(ne(S))
            outs = [S if a == 'stream' else a for a in args(more)] if given else [ZERO if a == 'stream' else a for a in args(more)]
            lab = 'stream' if given else 'no stream'
            ck.run(fn, e, st, outs, judge(ck, given), label=lab)

    for mod, tag, key, payload, mg, fn in (('hash', 'table', 'key', ['key', 'datum'], 'HSH_MAGIC', 'hsh_print_stats'), ('set', 'set', 'elem', ['elem'], 'SET_MAGIC', 'set_print_stats')):
        ht = HT(ck, mod, tag, 'bucket', key, payload, mg)

        # the figures come from a function judged elsewhere
        GF = fields_of(ck.prog, mod, {'hash': 'hsh_Stats', 'set': 'set_Stats'}[mod])

        def start():
            e = engine(ck)
            ht.install(e)
            st = e.new_state()
            e.models[{'hash': 'hsh_get_stats', 'set': 'set_get_stats'}[mod]] = figures(GF)
            return e, st, ht.table(e, st, 'T')
        both(fn, start, lambda t: [t.T, 'stream'])

    from props.c10 import Strings
    from props.c11 import Objects
    t, u = Strings(ck), Objects(ck)

    def fix(e):
        for k, v in engine(ck).models.items():
            if k in LOGS or k == 'dbg_test':
                e.models[k] = v
        e.check_bounds = False

    def s1():
        e, st = t.start()
        fix(e)
        return e, st, None
    both('mem_print_string_stats', s1, lambda _: [t.I, 'stream'])

    def s2():
        e, st = u.start()
        fix(e)
        return e, st, None
    both('mem_print_object_stats', s2, lambda _: [u.I, 'stream'])

    # the pool's figures come from the functions judged elsewhere
    SF = fields_of(ck.prog, 'string', 'str_Stats')

    def s3():
        e = engine(ck)
        st = e.new_state()
        e.models['str_pool_get_stats'] = figures(SF)
        st.facts = st.facts.assume(ne(sym('pool', ptr=True)))
        return e, st, None
    both('str_pool_print_stats', s3, lambda _: [sym('pool', ptr=True), 'stream'])
    both('str_print_stats', s3, lambda _: ['stream'])

    # source positions: any state of the source manager
    TF = fields_of(ck.prog, 'source', 'src_Stats')
    X, MSG = sym('source', ptr=True), sym('message', ptr=True)

    def s4():
        e = engine(ck)
        st = e.new_state()
        e.models['src_get_stats'] = figures(TF)
        e.models['prs_concrete'] = lambda en, st, ins, a: app('concrete', ptr=True)
        e.maynull_syms = (single(X),)
        return e, st, None
    both('src_print_stats', s4, lambda _: ['stream'])
    for src in (ZERO, X):
        def s5():
            e, st, m = s4()
            if src is X:
                st.facts = st.facts.assume(ne(X))
            st.facts = st.facts.assume(ne(MSG))
            return e, st, m
        both('src_print_line', s5, lambda _: ['stream', src])
        both('src_parse_error', s5, lambda _: ['stream', src, MSG if src is X else ZERO])
        for m in (MSG, ZERO):
            both('src_print_error', s5, lambda _: ['stream', src, m])
    return dict(minimum=10)
