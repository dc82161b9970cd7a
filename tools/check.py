#!/usr/bin/env python3
"""Decides one property: check.py C01 [quick|thorough].

Builds the harness against /repo's working tree, runs the stages of the property (each records what
the real code does, or replays what TLC generated, or model-checks the specification), and writes
evidence/<id>.json.  Exit 0: held; 1: VIOLATION line and replay file; 2: the check itself failed.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
BIN = os.path.join(ROOT, 'target', 'debug')
sys.path.insert(0, HERE)
from stages import PROPS, ASSUMPTIONS
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class Broken(Exception):
    """The check could not be carried out."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def build(bins):
    """Only the drivers that the property needs."""
    t = time.time()
    p = subprocess.run([os.path.join(HERE, 'build.sh')] + [x for b in sorted(bins) for x in ('--bin', b)], capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken('the harness does not build against /repo:\n' + p.stderr[-6000:])
    return time.time() - t


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_cvh(args, work, timeout, bin='cvh'):
    """Runs the driver; a crash, a hang or running out of memory is behaviour of the code under test."""
    def go(env):
        try:
            p = subprocess.run([os.path.join(BIN, bin)] + args, cwd=work, env=env, preexec_fn=limits, timeout=timeout,
                               capture_output=True, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise Broken('driver timed out: ' + ' '.join(args))
        return p
    p = go(dict(os.environ, RUST_BACKTRACE='0'))
    if p.returncode == 0:
        return p.stdout
    if p.returncode == 70 or p.returncode < 0:
        # find the case
        f = os.path.join(work, 'cases')
        q = go(dict(os.environ, RUST_BACKTRACE='0', CVH_CASES=f))
        if q.returncode == 0:
            raise Broken('driver died only once (%d): %s' % (p.returncode, ' '.join(args)))
        last = ''
        with open(f, errors='replace') as h:
            for last in h:
                pass
        kind = 'does not return' if p.returncode == 70 else 'kills the process (signal %d)' % -p.returncode
        raise Violation('the call ' + kind, {'driver': args, 'case': last.strip()[:20000], 'stderr': p.stderr[-2000:]})
    raise Broken('driver failed (%d): %s\n%s' % (p.returncode, ' '.join(args), p.stderr[-4000:]))


def tlc(module, cfg, work, env, timeout, workers='8', extra=()):
    meta = os.path.join(work, 'meta')
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, **env)
    e['JDK_JAVA_OPTIONS'] = '-Xss256m -Xmx8g -XX:+UseParallelGC'
    try:
        p = subprocess.run(['tlc', '-workers', workers, '-noGenerateSpecTE', '-metadir', meta, '-config', cfg, *extra, module],
                           cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    ok = 'Model checking completed. No error has been found.' in out
    stats = tuple(map(int, m[-1])) if m else (0, 0, 0)
    return ok, stats, out


def rejects(out):
    res = []
    for m in re.finditer(r'<<\s*"REJECT",\s*"(.*?)"\s*>>\s*\n', out, re.S):
        try:
            res.append(json.loads(json.loads('"' + m.group(1).replace('\n', '') + '"')))
        except ValueError:
            res.append({'raw': m.group(1)})
    return res


class Cov:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.stages = [], []


def trace_stage(st, work, cov, tier):
    """Record with the driver, validate with TLC."""
    n = int((st['n'] if tier == 'quick' else st.get('nt', st['n'] * 12)) * float(os.environ.get('CHECK_SCALE', '1')))
    batch = st.get('batch', 20000)
    terms = step = None
    if 'terms' in st:
        # the specification enumerates the terms; quickly, every `step`th of them
        terms = os.path.join(work, 'terms.ndjson')
        ok, _, out = tlc('TermsGen.tla', 'TermsGen.cfg', work, dict(st['terms'], GEN=terms), 600)
        if not ok:
            raise Broken('no terms:\n' + out[-4000:])
        step = st['step'] if tier == 'quick' else max(1, st['step'] // 6)
        n = len(open(terms).read().splitlines()) // step
        if n < st['min_terms']:
            raise Broken('only %d terms' % n)
    done = 0
    part = 0
    t0 = time.time()
    distinct = set()
    while done < n:
        k = min(batch, n - done)
        tr = os.path.join(work, 'trace.ndjson')
        args = [st['cmd'], '--seed', str(SEED * 1000 + part * 17 + st.get('salt', 0)), '--n', str(k), '--out', tr] + st.get('args', [])
        if terms:
            args += ['--terms', terms, '--from', str(SEED % step + done * step), '--step', str(step)]
        run_cvh(args, work, 400, st.get('bin', 'cvh'))
        with open(tr) as h:
            lines = h.read().splitlines()
        if not lines and terms and part > 0:
            break
        if not lines:
            raise Broken('empty trace: ' + ' '.join(args))
        env = dict(st.get('env', {}), TRACE=tr)
        ok, stats, out = tlc(st['spec'] + '.tla', st['spec'] + '.cfg', work, env, 600)
        rej = rejects(out)
        if rej:
            r = rej[0]
            line = json.loads(lines[r['line'] - 1]) if 'line' in r else None
            raise Violation('the specification rejects what the code did', {
                'stage': st['name'], 'driver': args, 'spec': st['spec'], 'env': st.get('env', {}), 'reject': r,
                'trace_line': line, 'rejected_lines': len(rej)})
        if not ok:
            raise Broken('TLC failed on %s:\n%s' % (st['spec'], out[-4000:]))
        want = sum(expected_states(json.loads(x)) for x in lines)
        if stats[1] != want and not (stats[1] < want and 'SKIPPED' in out):
            raise Broken('TLC did not take the whole trace: %d states, %d expected' % (stats[1], want))
        cov.states += stats[1]
        cov.transitions += stats[0]
        cov.traces += len(lines)
        ev = sum(expected_events(json.loads(x)) for x in lines)
        cov.events += ev
        for x in lines:
            distinct.add(hashlib.md5(x.encode()).digest())
        if part == 0:
            cov.samples.append({'stage': st['name'], 'line': json.loads(lines[len(lines) // 2])})
        os.remove(tr)
        done += k
        part += 1
    cov.stages.append({'stage': st['name'], 'terms' if terms else 'lines': done, 'distinct_lines': len(distinct), 'wall_s': round(time.time() - t0, 1)})


def expected_states(x):
    return 1 + len(x['st']) if 'st' in x else 1


def expected_events(x):
    return len(x.get('st') or x.get('rs') or [0])


def model_stage(st, work, cov, tier):
    """Model-check the specification itself."""
    t0 = time.time()
    cfg = st['cfg'] if tier == 'quick' else st.get('cfgt', st['cfg'])
    ok, stats, out = tlc(st['spec'] + '.tla', cfg, work, st.get('env', {}), 800, extra=st.get('extra', ()))
    if not ok:
        raise Broken('the specification fails its own check %s:\n%s' % (cfg, out[-4000:]))
    if stats[1] < st.get('min_states', 2):
        raise Broken('vacuous model check ' + cfg)
    cov.states += stats[1]
    cov.transitions += stats[0]
    cov.stages.append({'stage': st['name'], 'cfg': cfg, 'distinct_states': stats[1], 'wall_s': round(time.time() - t0, 1)})


def gen_stage(st, work, cov, tier):
    """TLC generates behaviours with their expected outcome, the driver replays them."""
    t0 = time.time()
    f = os.path.join(work, 'gen.ndjson')
    env = dict(st.get('env', {}) if tier == 'quick' else st.get('envt', st.get('env', {})), GEN=f)
    ok, stats, out = tlc(st['spec'] + '.tla', st['spec'] + '.cfg', work, env, 800)
    if not ok or not os.path.exists(f):
        raise Broken('generation failed:\n' + out[-4000:])
    res = run_cvh([st['cmd'], '--in', f] + st.get('args', []), work, 400, st.get('bin', 'cvh'))
    bad = None
    n = 0
    for l in res.splitlines():
        if l.startswith('MISMATCH ') and bad is None:
            bad = json.loads(l[9:])
        if l.startswith('REPLAYED '):
            n = int(l.split()[1])
    if bad is not None:
        raise Violation('the code does not do what the specification generated', {'stage': st['name'], 'case': bad})
    if n < st.get('min', 1):
        raise Broken('only %d behaviours replayed' % n)
    cov.states += stats[1]
    cov.transitions += stats[0]
    cov.traces += n
    cov.events += n
    os.remove(f)
    cov.stages.append({'stage': st['name'], 'replayed': n, 'wall_s': round(time.time() - t0, 1)})


KINDS = {'trace': trace_stage, 'model': model_stage, 'gen': gen_stage}


def known():
    f = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    work = os.path.join(ROOT, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    cov = Cov()
    viol = None
    b = build({st.get('bin', 'cvh') for st in PROPS[prop] if st['kind'] != 'model'})
    for i, st in enumerate(PROPS[prop]):
        if st.get('thorough') and tier == 'quick':
            continue
        st = dict(st, salt=st.get('salt', 0) + i * 101)
        try:
            KINDS[st['kind']](st, work, cov, tier)
        except Violation as v:
            viol = v
            break
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': cov.states, 'transitions': cov.transitions, 'traces_validated_against_impl': cov.traces,
            'observations_compared': cov.events, 'samples': cov.samples[:4], 'stages': cov.stages,
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0,
        'build_s': round(b, 1),
    }
    ev['coverage']['build_s'] = ev.pop('build_s')
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(work, 'violation.json')
        json.dump({'property': prop, 'what': viol.what, 'seed': SEED, 'tier': tier, **viol.data}, open(rp, 'w'), indent=1)
        print('%s: %s' % (prop, viol.what))
        print(json.dumps(viol.data)[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for k in known():
        if k.get('property') == prop and k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: held; %d states, %d lines, %.0f s' % (prop, cov.states, cov.traces, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('BROKEN: %s' % e, file=sys.stderr)
        sys.exit(2)
