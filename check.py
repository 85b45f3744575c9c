#!/usr/bin/env python3
"""Decides one property of /repo by static analysis: check.py ID [--tier quick|thorough]

Nothing of /repo is executed. The drivers in driver/ are translated together with the headers of
/repo's working tree to LLVM IR and the analyses in engine/ decide the obligations on it."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from registry import PROPERTIES, MEMORY

REPO = os.environ.get('SA_REPO', '/repo')
BUDGET = 780  # seconds until no answer is given

class Broken(Exception):
    pass

def engine_stamp():
    h = hashlib.sha256()
    d = os.path.join(HERE, 'engine')
    for f in sorted(os.listdir(d)):
        h.update(f.encode())
        h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()

def build_engine():
    out = os.environ.get('SA_BUILD', os.path.join(HERE, 'build'))
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == engine_stamp():
        return out
    r = subprocess.run(['bash', os.path.join(HERE, 'engine', 'build.sh'), out], capture_output=True, text=True)
    if r.returncode:
        raise Broken('the analyser does not build:\n' + r.stderr[-3000:])
    with open(stamp, 'w') as f:
        f.write(engine_stamp())
    return out

def compile_unit(src, out):
    """One driver, with all headers of the repository it includes, to LLVM IR"""
    stubs = 'stubs: net' in open(src).readline() # the network is part of the environment
    files = 'stubs: files' in open(src).readline() # and the file system
    client = 'stubs: client' in open(src).readline() # a network whose other side is known
    cmd = ['clang++-18', '-std=c++20'] + (['-DSA_FILES', '-I' + os.path.join(HERE, 'driver', 'client')] if client else []) + (['-DSA_STUBS', '-I' + os.path.join(HERE, 'driver', 'stubs')] if stubs else []) + (['-DSA_FILES', '-I' + os.path.join(HERE, 'driver', 'files')] if files else []) + ['-include', os.path.join(HERE, 'driver', 'pre.hpp'), '-I' + REPO, '-I' + os.path.join(HERE, 'driver'),
           '-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_ASSERTIONS', '-gline-tables-only', '-w', '-fno-access-control',
           '-emit-llvm', '-c', src, '-o', out + '.0']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('%s does not compile against %s:\n%s' % (src, REPO, r.stderr[:4000]))
    r = subprocess.run(['opt-18', '-passes=function(sroa,jump-threading)', out + '.0', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise Broken('opt failed: ' + r.stderr[:2000])
    return out

def run_scenario(build, module, name, work, timeout):
    out = os.path.join(work, name + '.json')
    try:
        r = subprocess.run([os.path.join(build, 'sai'), module, name, '-o', out, '--repo', REPO, '--seconds', str(int(timeout))], capture_output=True, text=True, timeout=timeout + 40)
    except subprocess.TimeoutExpired:
        raise Broken('the analysis of %s did not end in %d s' % (name, timeout))
    if not os.path.exists(out):
        raise Broken('the analysis of %s failed (%d): %s' % (name, r.returncode, r.stderr[-2000:]))
    d = json.load(open(out))
    d = d['scenarios'] if 'scenarios' in d else d
    d = d[0] if isinstance(d, list) else next(iter(d.values()))
    return d

def known_findings():
    known = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m:
            known.append(m.groups())
    return known

def key_of(a):
    fn = re.sub(r'<.*', '', a['fn'].replace('(anonymous namespace)', '').split('(')[0])
    return '%s@%s:%s' % (a['kind'], a['loc'].split(':')[0], re.sub(r'\s+', '_', fn))

def main():
    if sys.argv[1] == '--stamp':
        build_engine()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    prop = PROPERTIES[pid]
    start = time.time()
    work = tempfile.mkdtemp(prefix='sa-' + pid + '-')
    try:
        alarms, coverage = decide(pid, prop, tier, work, start)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    known = known_findings()
    violations, found = [], []
    for a in alarms:
        k = key_of(a)
        hit = next((x for x in known if x[0] == pid and x[1] == k), None)
        (found if hit else violations).append((a, hit))
    shown = set()
    for a, hit in found:
        if hit not in shown:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, hit[2], a['loc']))
            shown.add(hit)
    coverage['known_findings'] = len(shown)
    evidence = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other', 'coverage': coverage,
                'assumptions': prop.get('assumptions', []), 'wall_s': round(time.time() - start, 2), 'violations': len(violations)}
    with open(os.path.join(evid, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    replay = os.path.join(evid, pid + '.violations.json')
    if os.path.exists(replay):
        os.remove(replay)
    if violations:
        with open(replay, 'w') as f:
            json.dump([a for a, _ in violations], f, indent=1)
        for a, _ in violations:
            print('%s: %s: %s\n   in %s\n   analysed from %s' % (a['loc'], a['kind'], a['msg'], a['fn'][:200], a.get('scenario', '')))
            for x in (a.get('stack') or '').split('\n')[:12]:
                print('      ' + x[:200])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    print('%s: held; %s' % (pid, coverage['summary']))
    return 0

def decide(pid, prop, tier, work, start):
    alarms, broken = [], []
    build = build_engine() if prop.get('scenarios') or prop.get('thorough') else None
    jobs = []
    for driver, scenarios in prop.get('scenarios', {}).items():
        for s in scenarios:
            jobs.append((driver, s))
    for driver, scenarios in (prop.get('thorough', {}) if tier == 'thorough' else {}).items():
        for s in scenarios:
            jobs.append((driver, s))
    drivers = sorted({d for d, _ in jobs})
    coverage = {}
    results = {}
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        modules = {d: pool.submit(compile_unit, os.path.join(HERE, 'driver', d + '.cpp'), os.path.join(work, d + '.bc')) for d in drivers}
        modules = {d: f.result() for d, f in modules.items()}
        left = BUDGET - (time.time() - start)
        futures = {(d, s): pool.submit(run_scenario, build, modules[d], s, work, left) for d, s in jobs}
        for k, f in futures.items():
            results[k] = f.result()
    functions, sites, discharged, obligations, reached, havoc = set(), [], 0, 0, {}, set()
    for (d, s), r in results.items():
        if r['status'] != 'ok':
            broken.append('scenario %s of %s: %s' % (s, d, r['status']))
        need = prop.get('reach', {}).get(s, ['scenario returns'])
        for n in need:
            if n not in r['reached'] and r['status'] == 'ok':
                # what is reached is over-approximated, so no execution gets there
                alarms.append({'kind': 'unreachable', 'loc': 'driver/%s.cpp:0' % d, 'fn': s, 'msg': 'no input, history or decision of the user ever leads to "%s"' % n, 'stack': '', 'scenario': s})
        reached[s] = r['reached']
        functions |= set(r['functions'])
        havoc |= set(r['unresolved']) | set(r['externals']) | set(r['recursion_cuts'])
        for site, (ok, bad) in r['obligations'].items():
            if not relevant(pid, prop, site.split(' ')[0], site):
                continue
            obligations += 1
            if not bad:
                discharged += 1
            sites.append(site)
        for a in r['alarms']:
            if relevant(pid, prop, a['kind'], a['msg']):
                a['scenario'] = s
                alarms.append(a)
    unique, seen = [], set()
    for a in alarms:
        k = (a['kind'], a['loc'], a['msg'][:40])
        if k not in seen:
            seen.add(k)
            unique.append(a)
    alarms = unique
    if broken and not alarms:
        raise Broken('; '.join(broken))
    notes = []
    for rule in prop.get('rules', []):
        import rules
        got, cov = getattr(rules, rule)(REPO, work, build, compile_unit, Broken)
        alarms += got
        obligations += cov.get('obligations', 0)
        discharged += cov.get('discharged', 0)
        coverage[rule] = cov
        notes.append(cov.get('summary', rule))
    if results:
        coverage['scenarios'] = {s: {'reached': reached[s], 'instructions': results[(d, s)]['instructions'], 'states_joined': results[(d, s)]['joins']} for d, s in jobs}
        coverage['functions_analysed'] = len(functions)
        coverage['functions'] = sorted(f for f in functions if 'Bomba' in f)[:150]
        coverage['calls_treated_as_unknown'] = sorted(havoc)[:40]
        coverage['sites'] = sorted(set(sites))[:200]
        notes.append('%d scenarios, %d functions interpreted' % (len(jobs), len(functions)))
    if obligations < prop.get('min_obligations', 1):
        raise Broken('only %d obligations found, at least %d expected' % (obligations, prop.get('min_obligations', 1)))
    coverage['obligations'] = obligations
    coverage['discharged'] = discharged
    coverage['summary'] = '; '.join(notes) + '; %d of %d obligation sites discharged' % (discharged, obligations)
    coverage['explanation'] = prop['explanation']
    return alarms, coverage

def relevant(pid, prop, kind, text):
    kinds = prop.get('kinds', MEMORY)
    if kind == 'check':
        tags = re.findall(r'\b[A-Z]\d\d\b', text)
        return pid in tags if tags else 'check' in kinds
    return kind in kinds

if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ANALYSIS BROKEN: %s' % e)
        sys.exit(2)
