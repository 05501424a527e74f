#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib, threading


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        import ir
        ir.load()
        print('setup: clang produced the IR of', len(ir.load().mods), 'modules')
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import spec, ir
    mod = importlib.import_module('props.' + pid.lower())
    ck = spec.Check(pid, (mod.__doc__ or '').strip().split('\n')[0].split(': ', 1)[-1], tier)
    try:
        kw = mod.run(ck) or {}
    except (spec.AnchorLost, ir.AnalysisBroken) as x:
        print('ANALYSIS BROKEN: property %s: %s: %s' % (pid, type(x).__name__, x))
        sys.exit(2)
    ck.finish(kw.get('technique', TECH), minimum=kw.get('minimum', 1))


TECH = ('Abstract interpretation of the LLVM IR that clang produces for the current sources (no execution): '
        'shape domain of parametric list segments and object families, linear-inequality numeric domain, loops summarised '
        'by inferred parametric invariants that are checked inductive; the stated rules are judged on every abstract final state.')

if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(50000)
    rc = []

    def go():
        try:
            main()
            rc.append(0)
        except SystemExit as x:
            rc.append(x.code or 0)
        except BaseException:
            import traceback
            t = traceback.format_exc().splitlines()
            print('\n'.join(t[:12] + ['...'] + t[-12:]))
            rc.append(3)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
