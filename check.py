#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--runs N] [--jobs N] [--replay FILE] [--digests FILE]

Decides one property by seeded deterministic simulation of the library copied from /repo's working tree.
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or 0) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--digests')
    ap.add_argument('--profile', type=int)
    ap.add_argument('--show', type=int)
    a = ap.parse_args()
    if os.environ.get('AMSIM_CHILD') != '1':
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k not in ('BUILDuxpath.LEX',)}
        env.update(AMSIM_CHILD='1', PYTHONHASHSEED=os.environ.get('AMSIM_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1',
                   LANG='C.UTF-8', LC_ALL='C.UTF-8')
        os.execve(PY, [PY, '-W', 'ignore', os.path.join(HERE, 'check.py')] + sys.argv[1:], env)
    os.environ.pop('AMSIM_CHILD')
    sys.path[:0] = [HERE]
    import importlib
    from sim import mon, runner, sut
    sys.setrecursionlimit(6000)
    sys.unraisablehook = lambda a: None     # interrupts injected into finalisers
    P = importlib.import_module('props.' + a.id.lower())
    owner = os.getpid()
    scratch = sut.make_scratch()
    code = 2
    try:
        try:
            S = sut.load(scratch)
        except BaseException as e:
            import traceback
            traceback.print_exc()
            print('HARNESS ERROR: the library cannot be imported: %r' % (e,))
            return 2
        mon.setup(scratch, HERE)
        if hasattr(P, 'setup'):
            P.setup(S)
        seed = os.environ.get('VERIF_SEED') or '1'
        if a.replay:
            code = runner.replay(S, P, a.replay)
        elif a.show is not None:
            import json
            R = runner.Runner(S, P, a.tier, seed, 1)
            plan = R.plan_of(a.show)
            print(json.dumps(plan, ensure_ascii=False))
            env, v = runner.execute(S, P, plan, True)
            print('\n'.join(env.trace))
            print(v, env.faults, env.probes, env.mon_steps)
            code = 0
        elif a.profile:
            import cProfile
            R = runner.Runner(S, P, a.tier, seed, 1)
            cProfile.runctx('R.epoch(range(a.profile))', globals(), locals(), sort='cumtime')
            code = 0
        else:
            code = runner.main(S, P, a.tier, seed, a.jobs, a.runs, a.digests)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR: %r' % (e,))
        code = 2
    finally:
        if os.getpid() == owner:
            sut.remove_scratch(scratch)
    return code


if __name__ == '__main__':
    c = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(c)
