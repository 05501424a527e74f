"""C18: waiting for a process reports its true end, once."""
import procs as PR
from props import c17
from props.c27 import Step, scenario
from spec import *

SIGPIPE = 13
WNOHANG, WUNTRACED, WCONTINUED = 1, 2, 8


def ends():
    """every way a process can end: (status word, what the caller must get)"""
    for s in range(256):
        yield 'exit %d' % s, s << 8, s
    for s in range(1, 65):
        for core in (0, 128):
            yield 'signal %d%s' % (s, ' with a core' if core else ''), s | core, 0 if s == SIGPIPE else 128 + s


def run(ck):
    M = macros(['PR_CREATE_STDIN', 'PR_CREATE_STDOUT'])
    allends = list(ends())
    few = [allends[i] for i in (0, 1, 255)] + [x for x in allends if x[0] in ('signal 9', 'signal 13', 'signal 15 with a core', 'signal 64')]

    def waits(en, st, ins, pid, sp, opts):
        """one wait: it may be interrupted up to three times, fail, or report an end"""
        en.event(st, 'waitpid', [pid], None, ins)
        st.extra['waited'] = st.extra.get('waited', ()) + (pid,)
        k = st.extra.get('interrupted', 0)
        out = []

        def give(label, st2, ret):
            st2.extra['how'] = label
            out.append((st2, ret))
        if k < 3:
            n = st.copy()
            n.extra['interrupted'] = k + 1
            n.extra['errno'] = const(PR.EINTR)
            give('interrupted', n, const(-1))
        for err, what in ((PR.ECHILD, 'already'), (PR.EINVAL, 'error')):
            if k in (0, 2):
                n = st.copy()
                n.extra['errno'] = const(err)
                give(what, n, const(-1))
        early = []
        if opts & WNOHANG:
            early.append(('running', None, ZERO))
        if opts & WUNTRACED:
            early.append(('stopped', 0x137f, pid))
        if opts & WCONTINUED:
            early.append(('continued', 0xffff, pid))
        for label, word, ret in early:
            n = st.copy()
            if word is not None and st.norm(sp) is not ZERO:
                en.write(n, sp, 4, const(word), en.prog.loc(ins))
            n.extra['errno'] = const(0)
            give(label, n, ret)
        for label, word, want in (allends if k == 0 else few):
            n = st.copy()
            if st.norm(sp) is not ZERO:
                en.write(n, sp, 4, const(word), en.prog.loc(ins))
            n.extra['end'] = (label, want)
            n.extra['errno'] = app('errno', ZERO, rng=(0, 200))
            give('ended', n, const(4321) if isconst(pid) and pid.c <= 0 else pid)
        return out

    def judge(pid):
        def j(o, noret, env):
            x = o.st.extra
            if x.get('proc') == 'child':
                return None
            if x.get('how') is None:
                nm = 'it waits for the process'
                if noret is None:
                    o.fail(nm, 'it returns without a wait')
                return None
            p = pid(o, env)
            nm = 'it waits for that process only'
            for w in x['waited']:
                if w is p:
                    o.good(nm)
                else:
                    o.must(eq(w, p), nm, 'waits for %s' % w)
            how = x['how']
            if noret is not None:
                o.fail('the call returns', 'after %s it ends in %s' % (x.get('end', how), noret))
            elif how == 'interrupted':
                o.fail('a signal does not end the wait', 'it returns %s after a signal' % o.ret)
            elif how in ('running', 'stopped', 'continued'):
                o.fail('it blocks until the process has ended', 'it returns %s while the process is %s' % (o.ret, how))
            elif how == 'already':
                o.must(eq(o.ret, ZERO), 'a process already waited for', 'gives %s' % o.ret)
            elif how == 'error':
                o.must(eq(o.ret, const(-1)), 'another failure of the wait', 'gives %s' % o.ret)
            else:
                label, want = x['end']
                o.must(eq(o.ret, const(want)), 'the end of the process', 'ended by %s, gives %s instead of %d' % (label, o.ret, want))
                if x.get('interrupted'):
                    o.good('a signal does not end the wait')
            return None
        return j

    def start():
        e = c17.engine(ck)
        e.wait_hook = waits
        e.pathwise = 30
        e.budget = 200000
        st = e.new_state()
        PR.settab(st, dict(c17.BASE))
        return e, st, {'known': {}, 'table': dict(c17.BASE), 'pipes': 0, 'pids': ()}
    PID = sym('pid', rng=(1, 1 << 22))
    e, st, env = start()
    scenario(ck, e, st, [Step('pr_wait', lambda env, st: [PID], judge(lambda o, env: PID))], 'any process', env)
    e, st, env = start()
    scenario(ck, e, st, [Step('pr_spawn', lambda env, st: [literal(e, st, 'command', c17.CMD)], judge(lambda o, env: const(1001)))], 'a command', env)
    # the descriptor of an opened process
    for s in ('STDIN', 'STDOUT'):
        e, st, env = start()
        q = c17.Req(('create' if s == 'STDIN' else None, 'create' if s == 'STDOUT' else None, None), {f: macros([f])[f] for f in ('PR_CREATE_' + s,)}, 'p')
        cs = {}

        def opened(o, noret, env, s=s):
            if o.st.extra.get('proc') == 'child' or noret is not None:
                return None
            env = dict(env)
            env['fd'] = o.st.norm(o.rd(sym('%s of p' % s.lower(), ptr=True), 4))
            env['pid'] = o.ret
            return env
        scenario(ck, e, st, [Step('pr_open', lambda env, st: [literal(e, st, 'command', c17.CMD), const(q.flags)] + q.cells(e, st, env), opened),
                             Step('pr_close', lambda env, st: [env['fd']], judge(lambda o, env: env['pid']))], s.lower(), env)
    ck.rule('every exit status (256), every signal (64, with and without a core), up to three interruptions, ECHILD and another error, from the first wait or after interruptions; options other than 0 would also report processes that go on')
    ck.extra['ends'] = len(allends)
    ck.finish('static: pr_wait, pr_spawn and pr_close are analysed against every status word waitpid can store and every way it can fail; results compared with the mapping', level='other', minimum=1000)
