"""C17: a child process gets exactly its descriptors and never returns."""
import itertools
import vararg as V
import procs as PR
from props import c27
from props.c27 import Step, scenario
from spec import *

FLAGS = ['PR_USE_STDIN', 'PR_USE_STDOUT', 'PR_USE_STDERR', 'PR_CREATE_STDIN', 'PR_CREATE_STDOUT', 'PR_CREATE_STDERR', 'PR_STDERR_TO_STDOUT']
STD = ('STDIN', 'STDOUT', 'STDERR')
BASE = {0: (('std', 0), False), 1: (('std', 1), False), 2: (('std', 2), False),
        5: (('user', 5), False), 7: (('user', 7), False), 8: (('user', 8), False), 9: (('user', 9), False)}
CMD = b'prog "two words" x'
WORDS = (b'prog', b'two words', b'x')
FATAL = ('err_fatal', 'err_internal', 'err_fatal_errno')
CB = sym('callback', ptr=True)


def engine(ck):
    e = ck.engine()
    e.use_global_init = True
    e.check_bounds = True
    V.install(e)
    PR.install(e)
    e.wait_hook = PR.reaped
    e.maxdepth = 12
    e.budget = 60000

    def cb(en, st, ins, a, x):
        st.extra['called'] = st.extra.get('called', ()) + (st.extra.get('proc', 'parent'),)
    e.fpmodels[single(CB)] = cb
    return e


class Req:
    """one request: per stream None, 'create', 'null', ('fd', n) or 'out'"""

    def __init__(q, modes, M, tag, callback=False):
        q.modes, q.tag, q.callback = modes, tag, callback
        q.flags = 0
        for s, m in zip(STD, modes):
            if m == 'create':
                q.flags |= M['PR_CREATE_' + s]
            elif m == 'out':
                q.flags |= M['PR_STDERR_TO_STDOUT']
            elif m is not None:
                q.flags |= M['PR_USE_' + s]
        q.label = ' '.join('%s=%s' % (s.lower(), m if not isinstance(m, tuple) else 'given %s' % m[1]) for s, m in zip(STD, modes) if m) or 'no stream'

    def cells(q, e, st, env):
        """the caller's variables; NULL where none is needed"""
        out = []
        for s, m in zip(STD, q.modes):
            if m is None or m in ('null', 'out'):
                out.append(ZERO)
            else:
                p = PR.cell(e, st, '%s of %s' % (s.lower(), q.tag), 4, const(q.given(m, env) if isinstance(m, tuple) else -5))
                out.append(p)
        return out

    def given(q, m, env):
        n = m[1]
        return env[n] if isinstance(n, str) else n


def judge_open(q, cells, known):
    """known(env): {fd: pid} of what is open"""
    def j(o, noret, env):
        st = o.st
        x = st.extra
        before = env['table']
        given = [q.given(m, env) for m in q.modes if isinstance(m, tuple)]
        fd = lambda d: [k for k, v in PR.table(st).items() if v[0] == d]
        newpipes = range(env['pipes'], x.get('pipes', 0))
        pipe, k = {}, env['pipes']
        for s, m in zip(STD, q.modes):
            if m == 'create':
                pipe[s] = k
                k += 1
        if x.get('proc') == 'child':
            nm = 'the child becomes the command or ends with 127'
            if noret == PR.CHILD_END:
                o.good(nm)
            elif noret in ('_exit', '_Exit', 'quick_exit'):
                ev = [t[2] for t in flat(st.events) if t[2].name == noret]
                if 'execfailed' not in x:
                    o.fail(nm, 'it ends before the command could be executed')
                elif noret == 'quick_exit':
                    o.fail(nm, "quick_exit runs the caller's handlers")
                else:
                    o.must(eq(st.norm(ev[-1].args[0]), const(127)), nm, 'its status is %s' % ev[-1].args[0])
                return None
            else:
                o.fail(nm, "it returns into the caller's code" if noret is None else 'it calls %s' % noret)
                return None
            name, path, words = x['exec']
            nm = 'the command that is executed'
            if path is None or None in words:
                o.undec(nm, 'text not known')
            elif path != WORDS[0] or words != WORDS:
                o.fail(nm, '%r with arguments %r' % (path, words))
            else:
                o.good(nm)
            if name not in ('execvp', 'execvpe'):
                o.fail(nm, '%s does not look the command up in PATH' % name)
            nm = 'the callback runs once, in the child, before the command'
            (o.good(nm) if x.get('called', ()) == (('child',) if q.callback else ()) else o.fail(nm, 'it ran in %s' % (x.get('called', ()),)))
            t = {k: v[0] for k, v in PR.table(st).items() if not v[1]}
            want = []
            for n, (s, m) in enumerate(zip(STD, q.modes)):
                if m == 'create':
                    want.append([('r' if n == 0 else 'w', pipe[s])])
                elif m == 'null':
                    want.append([('file', b'/dev/null', 0 if n == 0 else 1), ('file', b'/dev/null', 2)])
                elif m == 'out':
                    want.append(want[1] if want[1] != [None] else [None, before.get(n, (None,))[0]])
                elif isinstance(m, tuple):
                    want.append([before[q.given(m, env)][0]])
                else:
                    want.append([before[n][0] if n in before else None])
            for n, w in enumerate(want):
                nm = "the child's %s" % STD[n].lower()
                (o.good(nm) if t.get(n) in w else o.fail(nm, 'is %s, requested was %s' % (t.get(n, 'closed'), w[0] or 'closed')))
            nm = 'the child holds nothing beyond its streams'
            for k, d in sorted(t.items()):
                if k < 3:
                    continue
                if d[0] in 'rw':
                    mine = d[1] in newpipes
                    o.fail(nm, 'descriptor %d is %s end of %s' % (k, 'the reading' if d[0] == 'r' else 'the writing', 'its own pipe' if mine else "another process's pipe"))
                elif k in given or k not in before:
                    o.fail(nm, 'descriptor %d (%s) is left open' % (k, d))
            o.good(nm)
            nm = 'what the caller holds besides is not touched'
            for k, v in before.items():
                if v[0][0] == 'user' and k > 2 and k not in given and t.get(k) != v[0]:
                    o.fail(nm, 'descriptor %d is closed in the child' % k)
            o.good(nm)
            return None
        # ---- the caller
        failed = x.get('failed')
        if failed:
            nm = 'a failing %s is reported' % failed[-1]
            (o.good(nm) if noret in FATAL else o.fail(nm, 'the call goes on'))
            return None
        nm = 'the call succeeds'
        if noret is not None:
            o.fail(nm, 'ends in %s' % noret)
            return None
        o.good(nm)
        if x.get('called') and 'parent' in x['called']:
            o.fail('the callback runs once, in the child, before the command', 'it runs in the caller')
        o.must(eq(o.ret, const(1000 + x['forks'])), 'the process id', 'gives %s' % o.ret)
        t = PR.table(st)
        env2 = dict(env)
        known = dict(env['known'])
        nm = 'the given ends'
        mine = set()
        for n, (s, m, c) in enumerate(zip(STD, q.modes, cells(env))):
            if m == 'create':
                v = st.norm(o.rd(c, 4))
                end = ('w' if n == 0 else 'r', pipe[s])
                if not isconst(v):
                    o.undec(nm, '%s is %s' % (s, v))
                    continue
                d = t.get(v.c, (None,))[0]
                (o.good(nm) if d == end else o.fail(nm, '%s is descriptor %d: %s' % (s.lower(), v.c, d or 'closed')))
                mine.add(v.c)
                known[v.c] = 1000 + x['forks']
                env2[q.tag + s] = v.c
        nm = 'the caller keeps its own ends only'
        bad = 0
        for k, (d, _) in sorted(t.items()):
            if d[0] in 'rw' and k not in mine and d[1] in newpipes:
                o.fail(nm, 'descriptor %d, an end of the new pipe for %s, is left open' % (k, [s for s in pipe if pipe[s] == d[1]]))
            elif k in given:
                o.fail(nm, 'descriptor %d, given to the child, is left open' % k)
            elif k not in before and k not in mine:
                o.fail(nm, 'descriptor %d (%s) is left open' % (k, d))
        for k in before:
            if k not in given and t.get(k) != before[k]:
                o.fail(nm, 'descriptor %d of the caller is closed or changed' % k)
        o.good(nm)
        nm = 'the argument list is released'
        for k, v in x.items():
            if isinstance(k, tuple) and k[0] == 'args' and v != 'destroyed':
                o.fail(nm, 'it is never destroyed')
        o.good(nm)
        for g in given:
            known.pop(g, None)
        env2.update(known=known, table=dict(t), pipes=x.get('pipes', 0), pids=env['pids'] + (1000 + x['forks'],))
        return env2
    return j


def closes(which, wait, want_pid):
    """pr_close_nowait / pr_close of a descriptor"""
    def j(o, noret, env):
        fd = env[which]
        nm = 'a descriptor knows its process until it is closed'
        if noret is not None:
            o.fail(nm, 'ends in %s' % noret)
            return None
        st = o.st
        pid = env['known'][fd]
        ev = [t[2] for t in flat(st.events)]
        closed = [i for i, x in enumerate(ev) if x.name == 'close' and x.args[0].c == fd]
        waits = [(i, x) for i, x in enumerate(ev) if x.name == 'waitpid']
        if wait:
            if not waits:
                o.fail(nm, 'the process is not waited for')
            for i, x in waits:
                o.must(eq(x.args[0], const(pid)), nm, 'waits for %s' % x.args[0])
                if not closed or closed[0] > i:
                    o.fail(nm, 'waits before the descriptor is closed, so that the process may never end')
        else:
            o.must(eq(o.ret, const(pid)), nm, 'gives %s, the process is %d' % (o.ret, pid))
            if waits:
                o.fail(nm, 'waits for the process')
        nm = 'closing'
        (o.good(nm) if fd not in PR.table(st) else o.fail(nm, 'descriptor %d stays open' % fd))
        for k in env['table']:
            if k != fd and k not in PR.table(st):
                o.fail(nm, 'descriptor %d is closed as well' % k)
        if len(closed) > 1:
            o.fail(nm, 'closed %d times' % len(closed))
        env2 = dict(env)
        known = dict(env['known'])
        del known[fd]
        env2.update(known=known, table=dict(PR.table(st)))
        return env2
    return j


def refused(o, noret, env):
    nm = 'a descriptor of no process is refused'
    (o.good(nm) if noret in FATAL else o.fail(nm, 'the call returns' if noret is None else noret))
    return None


def shutdown(o, noret, env):
    nm = 'every process still known is ended and waited for, once'
    if noret is not None:
        o.fail(nm, 'ends in %s' % noret)
        return None
    ev = [t[2] for t in flat(o.st.events)]
    alive = sorted(set(env['known'].values()))
    for name in ('kill', 'waitpid'):
        got = sorted(x.args[0].c if isconst(x.args[0]) else -1 for x in ev if x.name == name)
        (o.good(nm) if got == alive else o.fail(nm, '%s of %s, the processes are %s' % (name, got, alive)))
    nm = 'a process is ended by a signal it cannot ignore'
    for x in ev:
        if x.name == 'kill' and isconst(o.st.norm(x.args[1])):
            (o.good if o.st.norm(x.args[1]).c == 9 else lambda n: o.fail(n, 'signal %s leaves a process that ignores it, and shutdown waits for ever' % o.st.norm(x.args[1])))(nm)
    return env


def run(ck):
    M = macros(FLAGS)
    modes = ([None, 'create', 'null', ('fd', 7)], [None, 'create', 'null', ('fd', 8), ('fd', 1)], [None, 'create', 'null', ('fd', 9), ('fd', 2), 'out'])
    combos = list(itertools.product(*modes))

    def open_step(e, q):
        def args(env, st):
            cs = q.cells(e, st, env)
            cmd = literal(e, st, 'command', CMD)
            return [cmd] + ([CB] if q.callback else []) + [const(q.flags)] + cs
        cells = lambda env: [ZERO if m is None or m in ('null', 'out') else sym('%s of %s' % (s.lower(), q.tag), ptr=True) for s, m in zip(STD, q.modes)]
        return Step('pr_open2' if q.callback else 'pr_open', args, judge_open(q, cells, None))

    def start(mayfail=False):
        e = engine(ck)
        st = e.new_state()
        PR.settab(st, dict(BASE))
        st.facts = st.facts.assume(ne(CB))
        if mayfail:
            st.extra['mayfail'] = 1
        return e, st, {'known': {}, 'table': dict(BASE), 'pipes': 0, 'pids': ()}

    FIRSTS = (('create', 'create', None), (None, 'create', None), ('create', None, None), (None, None, 'create'), ('create', 'create', 'create'))
    first = lambda tag='first', k=0: Req(FIRSTS[k], M, tag)

    def probe(which):
        """a descriptor given away is no descriptor of a process any more"""
        def j(o, noret, env):
            fd = env.get(which)
            if fd in env['known']:
                return closes(which, False, None)(o, noret, env)
            return refused(o, noret, env)
        return Step('pr_close_nowait', lambda env, st: [const(env[which])], j)
    # every request, with nothing and with another process open; the chain: its output as the input
    for n, c in enumerate(combos):
        e, st, env = start(mayfail=True)
        scenario(ck, e, st, [open_step(e, Req(c, M, 'p', callback=n % 2 == 0))], Req(c, M, 'p').label, env)
        for c2 in [c] + ([(('fd', 'firstSTDOUT'),) + c[1:]] if c[0] == ('fd', 7) else []):
            q = Req(c2, M, 'second')
            for k in (0, 1 + n % (len(FIRSTS) - 1)):
                if isinstance(c2[0], tuple) and c2[0][1] == 'firstSTDOUT':
                    k = k if FIRSTS[k][1] == 'create' else 1
                    end = [probe('firstSTDOUT')]
                else:
                    end = []
                mine = [t + s for t, c0 in (('first', FIRSTS[k]), ('second', c2)) for s, m in zip(STD, c0) if m == 'create' and not (end and t + s == 'firstSTDOUT')]
                if k:
                    end = [Step('pr_close_nowait', (lambda w: lambda env, st: [const(env[w])])(w), closes(w, False, None)) for w in mine] + end
                e, st, env = start()
                scenario(ck, e, st, [open_step(e, first(k=k)), open_step(e, q)] + end, 'a process is open, ' + q.label, env)
    # the caller may have closed standard streams of its own, as a daemon does
    for shut in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2)):
        for n, c in enumerate(combos):
            if isinstance(c[1], tuple) and c[1][1] < 3 or isinstance(c[2], tuple) and c[2][1] < 3:
                continue
            for k in [None] + [1 + n % (len(FIRSTS) - 1)] * (n % 3 == 0 or (ck.tier != 'quick')):
                e, st, env = start()
                t = {d: v for d, v in BASE.items() if d not in shut}
                PR.settab(st, dict(t))
                env['table'] = dict(t)
                q = Req(c, M, 'second')
                scenario(ck, e, st, ([open_step(e, first(k=k))] if k is not None else []) + [open_step(e, q)], 'descriptor %s of the caller closed, %s' % (' and '.join(map(str, shut)), q.label), env)
    # closing
    both = Req(('create', 'create', 'create'), M, 'p')
    for order in itertools.permutations(STD):
        for waits in (False, True):
            e, st, env = start()
            fds = lambda s: lambda env, st: [const(env['p' + s])]
            steps = [open_step(e, first()), open_step(e, both)]
            steps += [Step('pr_close_nowait', fds(order[0]), closes('p' + order[0], False, 1002)),
                      Step('pr_close' if waits else 'pr_close_nowait', fds(order[1]), closes('p' + order[1], waits, 1002)),
                      Step('pr_close_nowait', fds(order[2]), closes('p' + order[2], False, 1002))]
            last = [Step('pr_close_nowait', fds(order[0]), refused)] if waits else \
                [Step('pr_close', lambda env, st: [const(env['firstSTDOUT'])], closes('firstSTDOUT', True, 1001)), Step('_pr_shutdown', lambda env, st: [], shutdown)]
            scenario(ck, e, st, steps + last, 'closing', env)
    for bad in ('pr_close', 'pr_close_nowait'):
        e, st, env = start()
        scenario(ck, e, st, [Step(bad, lambda env, st: [const(7)], refused)], 'nothing was opened', env)
        e, st, env = start()
        scenario(ck, e, st, [open_step(e, first()), Step(bad, lambda env, st: [const(7)], refused)], 'not a descriptor of a process', env)
        e, st, env = start()
        chain = Req((('fd', 'firstSTDOUT'), None, None), M, 'second')
        scenario(ck, e, st, [open_step(e, first()), open_step(e, chain), Step(bad, lambda env, st: [const(env['firstSTDOUT'])], refused)], 'given away', env)
    for steps in ([], [first()], [first(), both], [both, Req((('fd', 'pSTDOUT'), 'create', None), M, 'q')]):
        e, st, env = start()
        scenario(ck, e, st, [open_step(e, q) for q in steps] + [Step('_pr_shutdown', lambda env, st: [], shutdown)], 'shutdown with %d open' % len(steps), env)
        if steps:
            e, st, env = start()
            scenario(ck, e, st, [open_step(e, q) for q in steps] + [Step('_pr_shutdown', lambda env, st: [], shutdown)] + [Step('_pr_shutdown', lambda env, st: [], lambda o, noret, env: shutdown(o, noret, dict(env, known={})))], 'shutdown twice', env)
    # the highest descriptor there is
    for q in ([], [both]):
        for end in (Step('_pr_shutdown', lambda env, st: [], shutdown), Step('pr_close_nowait', lambda env, st: [const(env['topSTDIN'])], closes('topSTDIN', False, 1001))):
            e, st, env = start()
            full = {k: BASE.get(k, (('user', k), False)) for k in range(PR.OPEN_MAX - 2)}
            PR.settab(st, dict(full))
            env['table'] = dict(full)
            top = Req(('create', None, None), M, 'top')
            steps = [open_step(e, top)]
            for r in q:
                s2 = open_step(e, r)

                def room(env, st, s2=s2):
                    t = {k: v for k, v in PR.table(st).items() if k < 3 or k >= 14}
                    PR.settab(st, t)
                    env['table'] = dict(t)
                    return s2.args(env, st)
                steps.append(Step(s2.fn, room, s2.judge))
            scenario(ck, e, st, steps + [end], 'the highest descriptor', env)
    # requests that contradict themselves
    illegal = [M['PR_USE_' + s] | M['PR_CREATE_' + s] for s in STD] + [M['PR_STDERR_TO_STDOUT'] | M['PR_USE_STDERR'], M['PR_STDERR_TO_STDOUT'] | M['PR_CREATE_STDERR']]
    allf = 0
    for f in FLAGS:
        allf |= M[f]
    illegal += [1 << b for b in range(31) if not allf >> b & 1][:12]

    def contradiction(o, noret, env):
        nm = 'a contradictory request is refused before anything is done'
        did = [t[2].name for t in flat(o.st.events) if t[2].name in ('pipe', 'fork', 'close', 'dup2')]
        if noret not in FATAL:
            o.fail(nm, 'the call goes on')
        elif did:
            o.fail(nm, 'after %s' % did[0])
        else:
            o.good(nm)
    for f in illegal:
        e, st, env = start()
        scenario(ck, e, st, [Step('pr_open', lambda env, st: [literal(e, st, 'command', CMD), const(f)] + [PR.cell(e, st, s, 4, const(-5)) for s in STD], contradiction)], 'flags %#x' % f, env)
    # running a command to its end
    def spawned(o, noret, env):
        x = o.st.extra
        if x.get('proc') == 'child':
            nm = 'the child becomes the command or ends with 127'
            if noret in ('_exit', '_Exit') and 'execfailed' in x:
                ev = [t[2] for t in flat(o.st.events) if t[2].name == noret]
                o.must(eq(o.st.norm(ev[-1].args[0]), const(127)), nm, 'its status is %s' % ev[-1].args[0])
            elif noret == PR.CHILD_END:
                name, path, words = x['exec']
                (o.good(nm) if path == WORDS[0] and words == WORDS and name in ('execvp', 'execvpe') else
                 o.undec(nm, 'text not known') if path is None or None in words else o.fail(nm, '%s of %r %r' % (name, path, words)))
            else:
                o.fail(nm, "it returns into the caller's code" if noret is None else 'it calls %s' % noret)
            return None
        if x.get('failed'):
            nm = 'a failing fork is reported'
            (o.good(nm) if noret in FATAL or (noret is None and o.need(lt(o.ret, ZERO))) else o.fail(nm, 'the call goes on'))
            return None
        nm = 'the caller waits for its child'
        ev = [t[2] for t in flat(o.st.events) if t[2].name == 'waitpid']
        if noret is not None:
            o.fail(nm, 'ends in %s' % noret)
        elif not ev:
            o.fail(nm, 'it does not wait')
        else:
            o.must(eq(ev[-1].args[0], const(1000 + x['forks'])), nm, 'waits for %s' % ev[-1].args[0])
        nm = 'the argument list is released'
        (o.good(nm) if all(v == 'destroyed' for k, v in x.items() if isinstance(k, tuple) and k[0] == 'args') else o.fail(nm, 'it is never destroyed'))
        return None
    for pre in ([], [first()]):
        e, st, env = start(mayfail=not pre)
        scenario(ck, e, st, [open_step(e, q) for q in pre] + [Step('pr_spawn', lambda env, st: [literal(e, st, 'command', CMD)], spawned)], 'run', env)
    # a command of no words: there is nothing to execute, the child ends all the same
    def nothing(o, noret, env):
        if o.st.extra.get('proc') != 'child':
            return None
        nm = 'the child becomes the command or ends with 127'
        if noret in ('_exit', '_Exit'):
            ev = [t[2] for t in flat(o.st.events) if t[2].name == noret]
            o.must(eq(o.st.norm(ev[-1].args[0]), const(127)), nm, 'without a command its status is %s' % ev[-1].args[0])
        else:
            o.fail(nm, ("it returns into the caller's code" if noret is None else 'it ends in %s' % noret) + ' when there is no command')
        return None
    for text in (b'', b'  '):
        for c in ((None, None, None), ('create', 'create', 'create'), ('create', 'create', 'out')):
            for cb in (False, True):
                e, st, env = start()
                q = Req(c, M, 'p', callback=cb)
                scenario(ck, e, st, [Step('pr_open2' if cb else 'pr_open', lambda env, st, q=q, cb=cb: [literal(e, st, 'command', text)] + ([CB] if cb else []) + [const(q.flags)] + q.cells(e, st, env), nothing)], 'no command, ' + q.label, env)
        e, st, env = start()
        scenario(ck, e, st, [Step('pr_spawn', lambda env, st: [literal(e, st, 'command', text)], nothing)], 'no command', env)
    ck.rule('every combination of what each standard stream may be connected to (%d), with and without a callback, with and without another process open, every failing pipe, fork and exec' % len(combos))
    ck.finish('static: both processes after fork are analysed on an abstract kernel (a descriptor table per process); at exec the table of the child and at return that of the caller are compared with the request', level='other', minimum=1000)
