"""Batches of simulated runs over forked epochs, confirmation, minimisation, replay and evidence."""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import mon, shrink, sut
from .core import BadPlan, Env, HarnessError, SimHang, SimInterrupt, Violation, short

VERIF = sut.VERIF
BUDGET = 8000000          # monitored branch events per run
EPOCH_WALL = 240


def rng_for(seed, prop, idx):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_null = _Null()


def execute(S, P, plan, trace=False):
    """One simulated run: (env, violation or None)"""
    env = Env(trace)
    budget = getattr(P, 'BUDGET', BUDGET) + 600 * len(repr(plan))
    mon.begin(budget)
    viol = None
    sys.stderr = _null      # "Illegal character" messages
    try:
        try:
            P.run(S, plan, env)
        finally:
            env.mon_steps = mon.count
            mon.end()
    except Violation as v:
        viol = (v.kind, v.msg)
    except BadPlan:
        raise
    except HarnessError:
        raise
    except SimHang as e:
        viol = ('hang', str(e))
    except (MemoryError, OSError):
        raise
    except BaseException as e:
        if isinstance(e, (SystemExit, KeyboardInterrupt)) and not isinstance(e, SimInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
        viol = ('exception:' + type(e).__name__, '%s [%s]' % (short(str(e)), ' < '.join(reversed(where))))
    finally:
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    return env, viol


def in_fork(func, wall):
    """Run func() in a forked child: ('ok', value) ('died', status) ('timeout',)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                v = ('ok', func())
            except BaseException as e:
                v = ('exc', ''.join(traceback.format_exception(e))[-3000:])
            data = json.dumps(v).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(children, wall_end):
    """Wait for one of {fd: [pid, key, buf, deadline]}; returns (key, result)"""
    while True:
        now = time.monotonic()
        rl, _, _ = select.select(list(children), [], [], 0.5)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            ch = children[fd]
            if b:
                ch[2].append(b)
                continue
            os.close(fd)
            del children[fd]
            _, st = os.waitpid(ch[0], 0)
            try:
                v = json.loads(b''.join(ch[2]).decode())
            except ValueError:
                v = ['died', st]
            return ch[1], v
        for fd, ch in list(children.items()):
            if now > ch[3]:
                os.kill(ch[0], signal.SIGKILL)
                os.close(fd)
                del children[fd]
                os.waitpid(ch[0], 0)
                return ch[1], ['timeout', None]


def forked(func, wall=EPOCH_WALL):
    pid, fd = in_fork(func, wall)
    ch = {fd: [pid, 0, [], time.monotonic() + wall]}
    return collect(ch, None)[1]


class Runner:
    def __init__(self, S, P, tier, seed, jobs):
        self.S, self.P, self.tier, self.seed, self.jobs = S, P, tier, seed, jobs

    def epoch(self, indices, want_digests=False):
        S, P = self.S, self.P
        gc.disable()
        gc.freeze()         # what the parent has gathered by now is not for the runs' collections to walk
        out = {'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'mon_steps': 0, 'max_mon': 0, 'dig': [], 'sdig': [],
               'viol': None, 'harness': None, 'samples': [], 'nontrivial': 0, 'bad': 0, 'bytes': 0}
        for idx in indices:
            try:
                plan = P.gen(rng_for(self.seed, P.ID, idx), self.tier)
                plan = json.loads(json.dumps(plan))
                env, viol = execute(S, P, plan)
            except BadPlan as e:
                out['harness'] = 'generated plan %d is bad: %s' % (idx, e)
                break
            except BaseException as e:
                out['harness'] = 'run %d: %s' % (idx, ''.join(traceback.format_exception(e))[-2500:])
                break
            out['runs'] += 1
            for k, v in env.faults.items():
                out['faults'][k] = out['faults'].get(k, 0) + v
            for k, v in env.probes.items():
                out['probes'][k] = out['probes'].get(k, 0) + v
            out['steps'] += env.steps
            out['mon_steps'] += env.mon_steps
            out['max_mon'] = max(out['max_mon'], env.mon_steps)
            if env.nontrivial:
                out['nontrivial'] += 1
                out['dig'].append(env.digest())
            out['sdig'].append(env.sched_digest())
            if want_digests:
                out.setdefault('all', []).append([idx, env.digest(), env.sched_digest(), viol[0] if viol else ''])
            if len(out['samples']) < 1 and env.nontrivial:
                out['samples'].append({'run': idx, 'plan': plan, 'history_events': env.nlog, 'digest': env.digest()})
            if viol:
                out['viol'] = {'idx': idx, 'kind': viol[0], 'msg': viol[1], 'epoch': [i for i in indices if i <= idx]}
                break
        return out

    def batch(self, total, epoch_size, wall, want_digests=False):
        t0 = time.monotonic()
        epochs = [list(range(i, min(i + epoch_size, total))) for i in range(0, total, epoch_size)]
        res = {}
        children = {}
        nxt = 0
        stop = False
        capped = False
        while nxt < len(epochs) or children:
            while not stop and nxt < len(epochs) and len(children) < self.jobs:
                if time.monotonic() - t0 > wall:
                    stop = capped = True
                    break
                e = epochs[nxt]
                pid, fd = in_fork(lambda: self.epoch(e, want_digests), EPOCH_WALL)
                children[fd] = [pid, nxt, [], time.monotonic() + EPOCH_WALL]
                nxt += 1
            if not children:
                break
            k, v = collect(children, None)
            res[k] = v
            if v[0] == 'ok' and k > 20:
                v[1]['samples'] = []
            if v[0] != 'ok' or v[1]['viol'] or v[1]['harness']:
                stop = True
        return res, capped, time.monotonic() - t0

    # -- violations

    def run_plans(self, plans, trace=False):
        """In a forked child: run the plans one after the other; the first violation, if any"""
        def f():
            gc.disable()
            for i, p in enumerate(plans):
                try:
                    env, viol = execute(self.S, self.P, p, trace and i == len(plans) - 1)
                except BadPlan:
                    return None
                if viol:
                    return {'kind': viol[0], 'msg': viol[1], 'at': i, 'digest': env.digest(), 'trace': env.trace, 'faults': env.faults}
            return None
        v = forked(f, 120)
        return v[1] if v[0] == 'ok' else None

    def plan_of(self, idx):
        return json.loads(json.dumps(self.P.gen(rng_for(self.seed, self.P.ID, idx), self.tier)))

    def minimise(self, viol, wall):
        t0 = time.monotonic()
        kind = viol['kind']

        def same(plans):
            r = self.run_plans(plans)
            return bool(r) and r['kind'] == kind and r['at'] == len(plans) - 1

        plans = [self.plan_of(viol['idx'])]
        if not same(plans):
            # It needs earlier runs of the same epoch: keep as few as possible of them
            hist = [self.plan_of(i) for i in viol['epoch'][:-1]]
            if not same(hist + plans):
                return None
            k = max(1, len(hist) // 2)
            while True:
                i = 0
                while i < len(hist):
                    cand = hist[:i] + hist[i + k:]
                    if time.monotonic() - t0 < wall and same(cand + plans):
                        hist = cand
                    else:
                        i += k
                if k == 1:
                    break
                k //= 2
            plans = hist + plans
        n = 0
        before = shrink.size(plans)
        for i in reversed(range(len(plans))):
            def test(p, i=i):
                return same(plans[:i] + [p] + plans[i + 1:])
            best, k = shrink.shrink(plans[i], test, 3000, lambda: time.monotonic() - t0 > wall)
            plans[i] = best
            n += k
        return plans, {'tests': n, 'size_before': before, 'size_after': shrink.size(plans), 'wall_s': round(time.monotonic() - t0, 1)}

    def report(self, viol, shrink_wall=45):
        P = self.P
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        r = self.minimise(viol, shrink_wall)
        stable = True
        if r is None:
            plans = [self.plan_of(i) for i in viol['epoch']]
            info = {'note': 'not reproduced when replayed: the code under test is not deterministic here'}
            stable = False
            final = None
        else:
            plans, info = r
            final = self.run_plans(plans, trace=True)
        if final is None:
            final = {'kind': viol['kind'], 'msg': viol['msg'], 'digest': None, 'trace': None, 'faults': {}}
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (P.ID, self.seed, viol['idx']))
        doc = {'property': P.ID, 'seed': self.seed, 'tier': self.tier, 'run': viol['idx'], 'kind': final['kind'], 'message': final['msg'],
               'original_message': viol['msg'], 'digest': final['digest'], 'stable': stable, 'minimisation': info,
               'faults': final['faults'], 'plans': plans, 'trace': final['trace']}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        return path, final


def replay(S, P, path):
    with open(path) as f:
        doc = json.load(f)
    R = Runner(S, P, doc.get('tier', 'quick'), doc.get('seed', '1'), 1)
    r = R.run_plans(doc['plans'], trace=True)
    if r is None:
        print('replay: no violation')
        return 0
    print('replay: %s: %s' % (r['kind'], r['msg']))
    same = r['kind'] == doc['kind'] and (doc.get('digest') in (None, r['digest']))
    print('replay: %s' % ('reproduced exactly' if same else 'a violation, but not the recorded one (kind %s digest %s)' % (doc['kind'], doc.get('digest'))))
    print('VIOLATION property=%s replay=%s' % (P.ID, path))
    return 1


def main(S, P, tier, seed, jobs, runs=None, digests=None):
    t0 = time.monotonic()
    total = runs or (P.QUICK if tier == 'quick' else P.THOROUGH)
    esize = getattr(P, 'EPOCH', 40)
    wall = 420 if tier == 'quick' else 3000
    R = Runner(S, P, tier, seed, jobs)
    gc.collect()
    gc.freeze()
    res, capped, batch_s = R.batch(total, esize, wall, digests is not None)
    agg = {'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'mon_steps': 0, 'max_mon': 0, 'nontrivial': 0}
    dig, sdig, samples, harness, viols, alld = set(), set(), [], [], [], []
    for k in sorted(res):
        v = res[k]
        if v[0] != 'ok':
            harness.append('epoch %d: %s %s' % (k, v[0], short(str(v[1]), 2500)))
            continue
        o = v[1]
        for n in ('runs', 'steps', 'mon_steps', 'nontrivial'):
            agg[n] += o[n]
        agg['max_mon'] = max(agg['max_mon'], o['max_mon'])
        for n in ('faults', 'probes'):
            for a, b in o[n].items():
                agg[n][a] = agg[n].get(a, 0) + b
        dig.update(o['dig'])
        sdig.update(o['sdig'])
        if len(samples) < 3:
            samples.extend(o['samples'])
        if o['harness']:
            harness.append(o['harness'])
        if o['viol']:
            viols.append(o['viol'])
        alld.extend(o.get('all', []))
    if digests is not None:
        with open(digests, 'w') as f:
            json.dump(alld, f)
    code = 0
    lines = []
    if viols:
        viol = min(viols, key=lambda v: v['idx'])
        path, final = R.report(viol, float(os.environ.get('AMSIM_SHRINK_S') or 45))
        # The replay file must fail the same way in a fresh interpreter
        env = dict(os.environ)
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), P.ID, '--replay', path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        fresh = r.stdout.decode(errors='replace')
        with open(path) as f:
            doc = json.load(f)
        doc['fresh_process_replay'] = {'exit': r.returncode, 'exact': 'reproduced exactly' in fresh}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        lines.append('%s run %d: %s: %s' % (P.ID, viol['idx'], final['kind'], final['msg']))
        lines.append('replay in a fresh process: exit %d%s' % (r.returncode, ', exact' if 'reproduced exactly' in fresh else ''))
        lines.append('VIOLATION property=%s replay=%s' % (P.ID, path))
        code = 1
    elif harness or capped or not agg['runs']:
        for h in harness[:3]:
            lines.append('HARNESS ERROR: ' + h)
        if capped:
            lines.append('HARNESS ERROR: wall time cap of %d s reached after %d of %d runs' % (wall, agg['runs'], total))
        code = 2
    # probes which must not stay at zero
    if code == 0 and total >= P.QUICK:
        must = list(getattr(P, 'MUST_HIT', ()))
        for k, v in getattr(P, 'MUST_HIT_IF', {}).items():
            if agg['probes'].get(k):
                must += v
        zero = [p for p in must if not agg['probes'].get(p) and not agg['faults'].get(p)]
        if zero:
            lines.append('HARNESS ERROR: never reached: %s' % ', '.join(zero))
            code = 2
    dt = time.monotonic() - t0
    ev = {
        'property': P.ID, 'tier': tier, 'seed': int(seed) if str(seed).lstrip('-').isdigit() else 0,
        'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(dig),
            'rule': P.RULE,
            'samples': json.loads(json.dumps(samples[:3])) if len(json.dumps(samples[:3])) < 20000 else [
                {'run': s['run'], 'plan': short(json.dumps(s['plan']), 3000), 'digest': s['digest']} for s in samples[:3]],
            'nontrivial_runs': agg['nontrivial'],
            'distinct_schedules': len(sdig),
            'distinct_schedules_measure': 'distinct digests of the sequence of scheduling decisions of a run',
            'simulated_runs_per_hour': int(agg['runs'] / max(batch_s, .001) * 3600),
            'seeds_per_hour': int(agg['runs'] / max(batch_s, .001) * 3600),
            'run_seeds': 'sha256(VERIF_SEED=%s / %s / 0..%d)' % (seed, P.ID, total - 1),
            'simulated_time': {'logical_steps': agg['steps'], 'monitored_events': agg['mon_steps'],
                               'max_monitored_events_in_a_run': agg['max_mon'],
                               'note': 'the code has no clocks or timers, so simulated time is counted in steps'},
            'faults_injected': dict(sorted(agg['faults'].items())),
            'conditions_reached': dict(sorted(agg['probes'].items())),
            'components_real': P.REAL,
            'components_stubbed': P.STUB,
        },
        'assumptions': getattr(P, 'ASSUME', []),
        'wall_s': round(dt, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', P.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d runs, %d distinct non-trivial, %d schedules, faults %s, %.1f s' % (
        P.ID, tier, agg['runs'], len(dig), len(sdig), sum(agg['faults'].values()), dt))
    return code
