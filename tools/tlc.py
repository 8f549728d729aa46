"""Running TLC: exhaustive models and validation of recorded traces."""
import os, re, subprocess, tempfile, shutil, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


class Result:
    pass


def run(module, cfg=None, env=None, workers=8, timeout=600, mem='6g', extra=(), spec_dir=SPEC):
    meta = tempfile.mkdtemp(prefix='tlc')
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss16m', '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError(f'{module}: timeout after {timeout} s')
        out = p.stdout
        r = Result()
        r.out = out
        r.wall = time.time() - t
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        r.generated, r.distinct, r.left = map(int, m[-1]) if m else (0, 0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        r.depth = int(m.group(1)) if m else 0
        r.ok = p.returncode == 0 and 'No error has been found' in out
        r.violation = None
        m = re.search(r'Error: Invariant (\w+) is violated', out)
        if m:
            r.violation = 'invariant ' + m.group(1)
        elif 'Error: Deadlock reached' in out:
            r.violation = 'no action of the specification explains the next event'
        elif re.search(r'Error: (Action|Temporal) propert', out):
            m = re.search(r'Error: (.*)', out)
            r.violation = m.group(1)
        elif re.search(r'Error: Property (\w+) is violated', out):
            r.violation = re.search(r'Error: (Property \w+) is violated', out).group(1)
        if not r.ok and not r.violation:
            raise TlcError(f'{module}: TLC exit {p.returncode}\n' + out[-3000:] + p.stderr[-1000:])
        # last state of the error trace
        r.last = {}
        if r.violation:
            states = re.split(r'\nState \d+: ?', out)
            if len(states) > 1:
                r.last_text = states[-1].split('\n\n')[0]
                for k, v in re.findall(r'/\\ (\w+) = ((?:(?!\n/\\).)*)', r.last_text, re.S):
                    r.last[k] = v.strip()
            else:
                r.last_text = ''
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def validate(module, trace_file, cfg=None, **kw):
    """Validate all the traces of a file.  Returns (Result, rejected) where rejected is None or a
    dict describing the first rejected trace.  A trace is accepted when some behaviour explains it
    to its end: with the operator Accepted in the specification, the states that have reached the
    end are reported; without it, the specification has no hidden step and may not deadlock."""
    kw['env'] = dict(kw.get('env') or {}, TRACES=os.path.abspath(trace_file))
    if 'Accepted ==' in open(os.path.join(kw.get('spec_dir', SPEC), module + '.tla')).read():
        return validate_hidden(module, trace_file, cfg, **kw)
    r = run(module, cfg, **kw)
    rejected = None
    if r.violation:
        rejected = describe(r, json.load(open(trace_file)))
    return r, rejected


def describe(r, traces, reason=None):
    tid = int(r.last.get('tid', '1'))
    l = int(r.last.get('l', '1'))
    ev = traces[tid - 1]['ev']
    return dict(reason=reason or r.violation, trace=traces[tid - 1], tid=tid, at=l,
                next_event=ev[l - 1] if l <= len(ev) else None,
                last_event=ev[l - 2] if l >= 2 else None,
                state=r.last_text)


def validate_hidden(module, trace_file, cfg=None, **kw):
    traces = json.load(open(trace_file))
    kw['env'] = dict(kw['env'], UPTO='0', SHOW='0')
    r = run(module, cfg, **kw)
    if r.violation:
        return r, describe(r, traces)
    accepted = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out)}
    missing = [i for i in range(1, len(traces) + 1) if i not in accepted]
    if not missing:
        return r, None
    # how far does the first one go?
    i = missing[0]
    tmp = tempfile.mkdtemp(prefix='rej')
    try:
        f = os.path.join(tmp, 't.json')
        json.dump([traces[i - 1]], open(f, 'w'))
        kw['env'] = dict(kw['env'], TRACES=f, SHOW='1')
        r1 = run(module, cfg, **kw)
        far = max([int(x) for x in re.findall(r'<<"AT", (\d+)>>', r1.out)] or [1])
        kw['env'] = dict(kw['env'], UPTO=str(far), SHOW='0')
        r2 = run(module, cfg, **kw)
        rej = describe(r2, [traces[i - 1]], 'no behaviour of the specification explains the next event')
        rej['tid'] = i
        rej['rejected'] = len(missing)
        return r, rej
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    mod, tf = sys.argv[1:3]
    r, rej = validate(mod, tf, *(sys.argv[3:4]))
    print('states', r.generated, r.distinct, 'wall', round(r.wall, 1))
    if rej:
        print('REJECTED', rej['reason'], 'tid', rej['tid'], 'at', rej['at'], '/', len(rej['trace']['ev']), rej['trace']['id'])
        for i in range(max(0, rej['at'] - 26), min(len(rej['trace']['ev']), rej['at'] + 1)):
            print('  ', i + 1, json.dumps(rej['trace']['ev'][i])[:300])
        print(rej['state'][:3000])
