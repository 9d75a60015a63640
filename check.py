#!/usr/bin/env python3
"""Decides one property: python3 /verif/check.py <property> [--tier quick|thorough]
or re-validates a recorded violation: python3 /verif/check.py --replay <file>

A check
 1. builds the driver of the property's component from /repo's working tree,
 2. model checks the component's specification (the design) with TLC,
 3. lets TLC generate behaviours of the specification and replays them in the real code,
    in addition to randomly chosen ones,
 4. validates everything the real code did, step by step, against the specification.
Exit 0: held. Exit 1: VIOLATION line. Anything else: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
from components import COMPONENTS, component_of

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, detail, replay):
        self.detail, self.replay = detail, replay


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def build_env():
    return {
        'RUSTUP_TOOLCHAIN': 'nightly-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true',
        'PROTOC': '/usr/bin/protoc', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': '',
        'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': '--cap-lints allow',
        'PATH': '/root/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
        'HOME': os.environ.get('HOME', '/root'),
    }


def build(comp):
    ws = os.path.join(V, comp['workspace'])
    env = build_env()
    env['CARGO_TARGET_DIR'] = os.path.join(ws, 'target')
    rc, out = sh(['cargo', 'build', '--offline', '--locked', '-p', comp['crate']], 700, env, ws)
    if rc != 0:
        raise CheckError('the driver does not build:\n' + out[-4000:])
    return os.path.join(ws, 'target', 'debug', comp['crate'])


def tlc(args, timeout, env=None, heap='6g', workers='8'):
    meta = os.path.join(V, 'out', 'tlc-%d-%d' % (os.getpid(), time.time_ns()))
    os.makedirs(meta)
    try:
        return sh(['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta,
                   '-cp', JARS, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE'] + args,
                  timeout, env, SPEC)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def numbers(out):
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if m:
        return tuple(int(x.replace(',', '')) for x in m[-1])
    return (0, 0)


def model_check(cfg, limit):
    """cfg: (module, config text or file name, [extra args])"""
    module, config = cfg[0], cfg[1]
    rc, out = tlc(['-config', config, module], limit)
    if rc is None:
        raise CheckError('%s: out of time' % config)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('the specification %s (%s) is wrong:\n%s' % (module, config, out[-6000:]))
    gen, dist = numbers(out)
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    return {'config': config, 'transitions': gen, 'states': dist, 'depth': int(m.group(1)) if m else 0}


def simulate(comp, num, seed, path, limit=240):
    module, config, depth = comp['sim']
    workers = 4
    # TLC prints a behaviour when it has reached the length given in the configuration.
    rc, out = tlc(['-config', config, '-simulate', 'num=%d' % max(1, num // workers), '-depth', str(depth),
                   '-seed', str(seed), module], limit, workers=str(workers))
    scripts = []
    seen = set()
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            s = json.loads(line)[len('SCRIPT '):]
            # Behaviours that differ only in the last step are one.
            ops = json.loads(s)['ops']
            key = json.dumps(ops[:-1]) if len(ops) > 1 else s
            if key not in seen:
                seen.add(key)
                scripts.append(s)
    if rc is None or 'Error:' in out or not scripts:
        raise CheckError('no behaviours from %s:\n%s' % (module, out[-3000:]))
    with open(path, 'w') as f:
        f.write('\n'.join(scripts) + '\n')
    return len(scripts)


def record(binary, comp, seed, n, scripts, path, limit):
    cmd = [binary, comp['cmd'], '--seed', str(seed), '--n', str(n), '--out', path]
    if scripts:
        cmd += ['--scripts', scripts]
    rc, out = sh(cmd + comp.get('args', []), limit)
    if rc is None or rc < 0 or rc == 134:
        # The code under test hung or brought the process down: keep the complete runs before
        # it and record one that says so.
        good = []
        for x in (open(path).read().splitlines() if os.path.exists(path) else []):
            try:
                json.loads(x)
                good.append(x)
            except ValueError:
                pass
        what = 'the process hung' if rc is None else 'the process died: %s' % rc
        good.append(json.dumps({'id': -1, 'ev': comp['crash_cf'] + [{'e': 'panic', 'msg': what}]}))
        open(path, 'w').write('\n'.join(good) + '\n')
    elif rc != 0:
        raise CheckError('the driver failed (%s):\n%s' % (rc, out[-3000:]))


def validate(comp, prop, path, limit):
    """Validates the recorded runs; returns statistics or raises Violation."""
    config = os.path.join(V, 'out', 'trace-%d.cfg' % os.getpid())
    with open(config, 'w') as f:
        f.write('SPECIFICATION TraceSpec\nVIEW TraceView\nINVARIANTS Harness %s\n' % prop)
    try:
        rc, out = tlc(['-config', config, comp['trace']], limit, {'TRACES': path, 'PROP': prop})
    finally:
        os.unlink(config)
    if rc is None:
        raise CheckError('trace validation ran out of time')
    gen, dist = numbers(out)
    if rc == 0 and 'No error has been found' in out:
        return {'states': dist}
    tr = re.findall(r'^/\\ tr = (\d+)', out, re.M)
    ln = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if not tr:
        raise CheckError('trace validation failed:\n' + out[-4000:])
    if 'Invariant Harness is violated' in out:
        raise CheckError('the harness recorded something impossible (trace %s, step %s)\n%s' % (tr[-1], ln[-1], out[-3000:]))
    with open(path) as f:
        line = f.read().splitlines()[int(tr[-1]) - 1]
    trace = json.loads(line)
    violated = ('Invariant %s is violated' % prop) in out
    # The state after the violating step has l one further; an evaluation error has not moved yet.
    step = int(ln[-1]) - 1 if violated else int(ln[-1])
    if not violated and 'Deadlock reached' not in out and 'Error:' not in out:
        raise CheckError('trace validation failed:\n' + out[-4000:])
    if not violated and ('OutOfMemory' in out or 'StackOverflow' in out):
        raise CheckError('trace validation failed:\n' + out[-4000:])
    event = trace['ev'][step - 1] if 0 < step <= len(trace['ev']) else {}
    why = re.findall(r'^/\\ viol = (.*)', out, re.M)
    rdir = os.path.join(V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, '%s-%s.json' % (prop, comp['name']))
    with open(rfile, 'w') as f:
        json.dump({'property': prop, 'component': comp['name'], 'step': step, 'event': event,
                   'violates': why[-1] if why else '', 'not_a_behaviour': not violated,
                   'trace': trace, 'tlc': out[-6000:]}, f, indent=1)
    raise Violation('trace %s step %d: %s' % (trace.get('id'), step, json.dumps(event)[:600]), rfile)


def kinds(path, into):
    with open(path) as f:
        for line in f:
            for e in json.loads(line)['ev']:
                into[e['e']] = into.get(e['e'], 0) + 1


def samples(path, count=2):
    out = []
    with open(path) as f:
        for line in f:
            t = json.loads(line)
            out.append({'trace': t['id'], 'first_events': t['ev'][:6]})
            if len(out) >= count:
                break
    return out


def known_findings(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == prop]


def run(prop, tier):
    started = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(V, 'out'), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    work = os.path.join(V, 'out', '%s-%s-%d' % (prop, tier, os.getpid()))
    os.makedirs(work)
    comps = component_of(prop)
    models, event_kinds, smp = [], {}, []
    ntraces = nstates = nscripts = 0
    violation = None
    try:
        for comp in comps:
            binary = build(comp)
            budget = 60 if tier == 'quick' else comp.get('thorough_s', 420)
            for cfg in comp['mc_' + tier]:
                models.append(model_check(cfg, 400 if tier == 'quick' else 800))
            t0 = time.time()
            chunk = 0
            while True:
                s = seed * 1000 + chunk
                n = comp['n_quick'] if tier == 'quick' else comp.get('n_thorough', comp['n_quick'] * 2)
                scripts = None
                if comp.get('sim'):
                    scripts = os.path.join(work, 'scripts.ndjson')
                    nscripts += simulate(comp, comp['sim_quick'] if tier == 'quick' else comp['sim_quick'] * 2, s, scripts)
                traces = os.path.join(work, '%s-%d.ndjson' % (comp['name'], chunk))
                record(binary, comp, s, n, scripts, traces, 150 if tier == 'quick' else 400)
                kinds(traces, event_kinds)
                if not smp:
                    smp = samples(traces)
                st = validate(comp, prop, traces, 600)
                with open(traces) as f:
                    ntraces += sum(1 for _ in f)
                nstates += st['states']
                os.unlink(traces)
                chunk += 1
                if tier == 'quick' or time.time() - t0 > budget:
                    break
    except Violation as v:
        violation = v
    finally:
        shutil.rmtree(work, ignore_errors=True)
    level = comps[0]['level']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': sum(m['states'] for m in models),
            'transitions': sum(m['transitions'] for m in models),
            'traces_validated_against_impl': ntraces,
            'model_configs': models, 'steps_of_the_implementation_validated': nstates, 'behaviours_generated_by_spec': nscripts,
            'events': event_kinds, 'samples': smp,
        },
        'wall_s': round(time.time() - started, 1),
        'assumptions': sum((c['assumptions'] for c in comps), []),
        'violations': 0 if violation is None else 1,
    }
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violation is not None:
        print(violation.detail)
        print('VIOLATION property=%s replay=%s' % (prop, violation.replay))
        return 1
    print('%s: held on %d runs of the code (%d steps), %d states of the model, %.0f s' % (
        prop, ntraces, nstates, sum(m['states'] for m in models), time.time() - started))
    return 0


def replay(path):
    r = json.load(open(path))
    comp = [c for c in COMPONENTS if c['name'] == r['component']][0]
    os.makedirs(os.path.join(V, 'out'), exist_ok=True)
    t = os.path.join(V, 'out', 'replay-%d.ndjson' % os.getpid())
    with open(t, 'w') as f:
        f.write(json.dumps(r['trace']) + '\n')
    try:
        validate(comp, r['property'], t, 300)
    except Violation as v:
        print(v.detail)
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    finally:
        os.unlink(t)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        sys.exit(replay(a.replay) if a.replay else run(a.property, a.tier))
    except CheckError as e:
        print('CHECK FAILED: %s' % e, file=sys.stderr)
        sys.exit(2)


main()
