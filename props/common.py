"""Pieces shared by several properties."""
from sim import gen, ref
from sim.core import BadPlan, SimHang, Violation, expect, need, short


def recorder(S, out, raw=None):
    """A handler coroutine which keeps events in reference form"""
    while True:
        ev = yield
        out.append(ref.ev_norm(S, ev))
        if raw is not None:
            raw.append(ev)


def attempt(f, *a):
    """('ok', value) or ('err', exception).  Hangs are not caught."""
    try:
        return 'ok', f(*a)
    except SimHang:
        raise
    except Exception as e:
        return 'err', e


def gen_doc(rng, shape=None, xml=False, plain=None, maxn=None, scale=.03):
    shape = shape or gen.Shape(rng, plain=rng.random() < .3 if plain is None else plain, xml=xml, maxn=maxn, scale=scale, small=not scale)
    return {'t': gen.gen_tree(rng, shape), 'lex': rng.choice([0, rng.randint(1, 1 << 30), rng.randint(1, 1 << 30)])}


def load_doc(d, xml=False):
    """(text, [(offset, event)], end of document element)"""
    need(isinstance(d, dict) and isinstance(d.get('lex'), int))
    gen.check_tree(d['t'])
    return gen.render(d['t'], d['lex'], xml)


class Feed:
    """One parser coroutine being fed"""
    def __init__(self, S, env, frags, fin, name, handler=None, out=None):
        self.S, self.env, self.frags, self.name = S, env, frags, name
        self.events = [] if out is None else out
        self.raw = []
        self.handler = recorder(S, self.events, self.raw) if handler is None else handler
        self.p = S.parser.parser(self.handler)
        self.i = 0
        self.fin = fin        # final flag on the last fragment rather than an empty one after it
        self.outcome = None   # None, 'ok', exception
        self.fed = 0

    def active(self):
        return self.outcome is None

    def step(self):
        n = len(self.frags)
        if self.i < n:
            f = self.frags[self.i]
            last = self.fin and self.i == n - 1
        else:
            f, last = '', True
        self.i += 1
        self.fed += len(f)
        try:
            self.p.send((f, bool(last)))
        except SimHang:
            raise
        except StopIteration as e:
            self.outcome = e
        except Exception as e:
            self.outcome = e
        else:
            if last:
                self.outcome = 'ok'
                self.p.close()
        self.env.log(self.name, 'feed', f, len(self.events), type(self.outcome).__name__ if self.outcome is not None else '')


def interleave(env, items, sched, each=None):
    """Step active items in the order which the plan's integers say"""
    i = 0
    while True:
        act = [x for x in items if x.active()]
        if not act:
            return
        k = sched[i % len(sched)] % len(act) if sched else 0
        i += 1
        env.step(act[k].name)
        act[k].step()
        if each:
            each(act[k])


def outcome_of(o):
    return 'ok' if o == 'ok' else 'error'
