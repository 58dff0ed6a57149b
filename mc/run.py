#!/usr/bin/env python3
"""Driver of the checks:  run.py PID [--replay FILE]

Starts Jython workers (the language of the code under test), each exploring a
share of the bounded space of property PID against the code in /repo, adds up
what they covered, writes evidence/PID.json and reports violations.
"""
import ast, glob, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/usr/share/java/jython.jar'


def jython(args, heap='1600m', **kw):
    env = dict(os.environ, JYTHONPATH='/opt/jylib', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
               HOME='/root', VERIF_REPO=REPO)
    for name in ('CLASSPATH', 'JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS'):
        env.pop(name, None)
    # the short runs end before the optimizing compiler pays off
    cmd = ['java'] + (['-XX:TieredStopAtLevel=1'] if os.environ.get('VERIF_TIER') != 'thorough' else []) + [ '-Xmx' + heap, '-Xss4m', '-XX:+UseSerialGC', '-XX:-StackTraceInThrowable', '-jar', JAR,
           '-Dpython.home=/usr/share/jython', '-Dpython.executable=/usr/bin/jython',
           '-Dpython.cachedir.skip=true', '-B', '-s'] + args
    if os.path.realpath('/usr/bin/jython') != '/usr/bin/jython':
        home = os.path.dirname(os.path.dirname(os.path.realpath('/usr/bin/jython')))
        cmd[cmd.index('-Dpython.home=/usr/share/jython')] = '-Dpython.home=' + home
    return subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, **kw)


def clean_bytecode():
    # left by a hand-run jython; they would be loaded in place of the sources
    for base, dirs, names in os.walk(os.path.join(REPO, 'request_parser')):
        for n in names:
            if n.endswith('$py.class') or n.endswith('.pyc'):
                os.unlink(os.path.join(base, n))


def setup():
    # nothing is built ahead: every check loads the sources of the working tree itself
    clean_bytecode()
    p = jython(['-c', 'import sys; print sys.version_info[:2]'], stdout=subprocess.PIPE)
    out = p.communicate()[0]
    print(out.decode().strip())
    return 0 if out.strip() == b'(2, 7)' else 2


def main():
    if sys.argv[1] == '--setup':
        return setup()
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else ''
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    n = int(os.environ.get('VERIF_WORKERS') or max(2, min(8, os.cpu_count() or 2)))
    if replay:
        n = 1
    limit = 840 if tier == 'quick' else 4 * 3600
    start = time.time()
    clean_bytecode()
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    for f in glob.glob(os.path.join(ev_dir, 'replay-%s-*' % pid)):
        if f != os.path.abspath(replay):
            os.unlink(f)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid.lower())
    procs = []
    try:
        for i in range(n):
            out = os.path.join(scratch, 'out%d' % i)
            work = os.path.join(scratch, 'w%d' % i)
            os.mkdir(work)
            log = open(os.path.join(scratch, 'log%d' % i), 'wb')
            procs.append((jython([os.path.join(HERE, 'jy', 'worker.py'), pid, str(i), str(n), tier, str(seed), work, out,
                                  os.path.abspath(replay) if replay else ''],
                                 stdout=log, stderr=log, cwd=work, start_new_session=True), out, log))
        pending = list(procs)
        while pending and time.time() - start < limit:
            time.sleep(0.05)
            for p in list(pending):
                if p[0].poll() is not None:
                    pending.remove(p)
            # one violation settles the outcome: do not wait for the rest of the space
            if any(os.path.exists(p[1] + '.fail') for p in procs):
                time.sleep(0.2)
                break
        timed_out = bool(pending) and time.time() - start >= limit
        fails, results, errors = [], [], []
        for i, (p, out, log) in enumerate(procs):
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            log.close()
            if os.environ.get('VERIF_DEBUG'):
                sys.stderr.write(open(os.path.join(scratch, 'log%d' % i), errors='replace').read()[-6000:])
            if os.path.exists(out + '.fail'):
                with open(out + '.fail', encoding='ascii') as f:
                    for line in f:
                        if line.endswith('\n'):
                            fails.append(ast.literal_eval(line))
            if os.path.exists(out):
                with open(out, encoding='ascii') as f:
                    results.append(ast.literal_eval(f.read()))
            elif not os.path.exists(out + '.fail'):
                with open(os.path.join(scratch, 'log%d' % i), encoding='utf-8', errors='replace') as f:
                    errors.append('worker %d: rc=%s\n%s' % (i, p.returncode, f.read()[-3000:]))
    finally:
        for p, out, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    known = []
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as f:
        for line in f:
            # KNOWN: property=<id> key=<key of the failing case> <what fails>
            if line.startswith('KNOWN: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                known.append((key[len('key='):], what.strip()))
    seen_known = set()
    violations = []
    for f in fails:
        for key, what in known:
            if f['key'] == key:
                seen_known.add((key, what))
                break
        else:
            violations.append(f)
    for r in results:
        for key in r['known_seen']:
            seen_known.update((k, w) for k, w in known if k == key)

    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'units': 0, 'samples': []}
    scopes, outcomes, counters = {}, set(), {}
    for r in results:
        for k in ('states', 'transitions', 'traces_validated_against_impl', 'units'):
            cov[k] += r[k]
        for k, v in r['scopes'].items():
            scopes[k] = scopes.get(k, 0) + v
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        outcomes.update(r['outcomes'])
        for s in r['samples']:
            if len(cov['samples']) < 12 and s not in cov['samples']:
                cov['samples'].append(s)
    meta = results[0] if results else {'bounds': '', 'assumptions': [], 'oracle': ''}
    cov['units_by_scope'] = scopes
    cov['distinct_observed_outcomes'] = len(outcomes)
    cov['counters'] = counters
    cov['bounds'] = meta['bounds']
    cov['oracle'] = meta['oracle']
    cov['exhaustive'] = bool(results) and len(results) == n and not violations and not timed_out and not errors
    cov['known_findings_met'] = sorted(k for k, w in seen_known)
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                'assumptions': meta['assumptions'], 'wall_s': round(time.time() - start, 2),
                'violations': len(violations)}
    if not replay:
        path = os.path.join(ev_dir, pid + '.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.replace(path + '.tmp', path)
    for key, what in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if violations:
        for i, v in enumerate(violations[:5]):
            path = os.path.join(ev_dir, 'replay-%s-%d.json' % (pid, i))
            v = dict(v, property=pid, how='python3 mc/run.py %s --replay <this file>' % pid)
            if not replay:
                with open(path, 'w', encoding='utf-8') as f:
                    json.dump(v, f, indent=1, sort_keys=True)
            else:
                path = replay
            print('%s: %s' % (v['unit'], v['what']))
            print('  case: %s' % v['case'][:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if timed_out:
        print('ERROR: the exploration did not finish in %d s' % limit)
        return 3
    if errors or len(results) != n:
        print('ERROR: %s' % '\n'.join(errors))
        return 2
    print('%s %s: held on %d states, %d transitions, %d traces (%d distinct outcomes) in %.1f s' % (
        pid, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(outcomes),
        evidence['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
