"""The machinery common to all the checks."""
import os, sys, json, time, subprocess, shutil, tempfile, traceback, random
import tlc, build as builder

VERIF = builder.VERIF
BUILD = builder.BUILD


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.assumptions, self.known = [], [], [], []
        self.scratch = tempfile.mkdtemp(prefix='verif-')
        self.n = 0
        self.violations = []

    # -- building ----------------------------------------------------------
    def build(self, *targets):
        t = time.time()
        builder.build(*targets)
        self.parts.append(dict(part='build', targets=list(targets), wall_s=round(time.time() - t, 1)))

    # -- the design, exhaustively -------------------------------------------
    def model(self, module, cfg=None, **kw):
        r = tlc.run(module, cfg, **kw)
        if not r.ok:
            raise Exception(f'{module}: the design model violates {r.violation}\n' + r.last_text)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part='model', module=module, config=cfg or module, distinct_states=r.distinct,
                               transitions=r.generated, depth=r.depth, wall_s=round(r.wall, 1)))
        return r

    def model_fails(self, module, cfg, **kw):
        """A design known to be wrong: the properties of the model must reject it."""
        r = tlc.run(module, cfg, **kw)
        if r.ok:
            raise Exception(f'{module} {cfg}: a wrong design is accepted')
        self.parts.append(dict(part='wrong design rejected', module=module, config=cfg, by=r.violation, wall_s=round(r.wall, 1)))

    # -- the code -----------------------------------------------------------
    def run_harness(self, name, args, timeout=300, env=None, stdin=None):
        """Run a harness, which prints a JSON object; dying is a violation."""
        t = time.time()
        cmd = [os.path.join(BUILD, name)] + [str(a) for a in args]
        e = dict(os.environ)
        e.update(env or {})

        def once():
            cwd = tempfile.mkdtemp(prefix='run', dir=self.scratch)
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout,
                                   cwd=cwd, env=e, stdin=subprocess.DEVNULL)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                return 'timeout', '', ''
            finally:
                shutil.rmtree(cwd, ignore_errors=True)
        rc, out, err = once()
        if rc == 3:
            raise Exception(f'{name}: {err}')
        if rc != 0:
            first = (rc, out[-2000:], err[-3000:])
            rc, out, err = once()
            if rc != 0:
                raise Violation(f'{name} ends with {rc} on valid use', dict(cmd=cmd, first=first, second=(rc, out[-2000:], err[-3000:])))
        stats = json.loads(out.strip().splitlines()[-1]) if out.strip() else {}
        self.parts.append(dict(part='harness', name=name, args=[str(a) for a in args[1:]], **stats, wall_s=round(time.time() - t, 1)))
        return stats

    def validate(self, module, trace_file, cfg=None, env=None, keep=2, **kw):
        e = dict(PROP=self.prop)
        e.update(env or {})
        e['TRACES'] = os.path.abspath(trace_file)
        t = json.load(open(trace_file))
        if not t:
            raise Exception('no traces')
        r, rej = tlc.validate(module, trace_file, cfg, env=e, **kw)
        if rej:
            return rej
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(t)
        n = sum(len(x['ev']) for x in t)
        self.events += n
        kinds = {}
        for x in t:
            for ev in x['ev']:
                kinds[ev['e']] = kinds.get(ev['e'], 0) + 1
        self.parts.append(dict(part='validation', module=module, traces=len(t), events=n, events_by_kind=kinds,
                               states=r.distinct, wall_s=round(r.wall, 1)))
        rng = random.Random(self.seed)
        for x in rng.sample(t, min(keep, len(t))):
            self.samples.append(dict(trace=x['id'], first_events=x['ev'][:12], events=len(x['ev'])))
        return None

    def traces_of(self, harness, module, args, cfg=None, env=None, timeout=300, tlc_timeout=600, henv=None, confirm=True, **kw):
        """Run a harness whose first argument is the file of the traces, and validate them."""
        self.n += 1
        f = os.path.join(self.scratch, f't{self.n}.json')
        stats = self.run_harness(harness, [f] + list(args), timeout, env=henv)
        rej = self.validate(module, f, cfg, env, timeout=tlc_timeout, **kw)
        if rej:
            # the same trace must be rejected again when everything is run again
            again = None
            if confirm:
                os.remove(f)
                self.run_harness(harness, [f] + list(args), timeout, env=henv)
                again = self.validate(module, f, cfg, env, timeout=tlc_timeout, **kw)
                if not again:
                    self.parts.append(dict(part='not confirmed', rejected=rej['trace']['id'], reason=rej['reason']))
                    print(f"rejected once, accepted when run again: {rej['trace']['id']}", flush=True)
                    os.remove(f)
                    return stats
            raise Violation(f"{module}: {rej['reason']} in trace {rej['trace']['id']!r} at event {rej['at']}",
                            dict(harness=harness, args=[str(a) for a in args], module=module, **rej))
        os.remove(f)
        return stats

    def finding(self, key, present, what):
        """A scenario with an outcome that is wrong: a known finding, or a violation."""
        if present:
            for k, text in known_findings(self.prop):
                if k == key:
                    self.known.append(f'{key}: {text}')
                    return
            raise Violation(what, dict(key=key))

    # -- results -------------------------------------------------------------
    def evidence(self, wall, violations):
        d = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_validated=self.events,
                                parts=self.parts, samples=self.samples or ['none']),
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=violations)
        if self.known:
            ev['known_findings'] = self.known
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)


def known_findings(prop):
    """[(key, text)] of the lines "KNOWN: property=ID key=KEY text" of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'KNOWN: property={prop} key='):
                key, _, text = l.strip().split('key=', 1)[1].partition(' ')
                r.append((key, text))
    return r


def main(prop, fn):
    t = time.time()
    c = Ctx(prop)
    rc = 0
    try:
        try:
            fn(c)
        except Violation as v:
            rc = 1
            d = os.path.join(BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, prop + '.json')
            json.dump(dict(property=prop, what=v.what, seed=c.seed, tier=c.tier, **v.data), open(path, 'w'), indent=1, default=str)
            print(v.what)
            if v.data.get('trace'):
                at = v.data['at']
                for i, ev in list(enumerate(v.data['trace']['ev']))[max(0, at - 12):at]:
                    print('  ', i + 1, json.dumps(ev)[:300])
                print('state:', v.data.get('state', '')[:1500])
            elif v.data:
                print(json.dumps(v.data, default=str)[:2500])
            print(f'VIOLATION property={prop} replay={path}', flush=True)
        c.evidence(time.time() - t, 1 if rc else 0)
        for k in c.known:
            print(f'KNOWN-FINDING: property={prop} {k}')
        if rc == 0:
            print(f'{prop}: held on {c.traces} traces, {c.events} events, {c.states} states, {time.time() - t:.1f} s')
        return rc
    except builder.BuildError as e:
        print('the build failed\n', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
