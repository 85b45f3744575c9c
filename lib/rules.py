"""Rules decided without the abstract interpreter. Each returns (alarms, coverage)."""
import concurrent.futures, os, re, subprocess

def alarm(kind, loc, fn, msg):
    return {'kind': kind, 'loc': loc, 'fn': fn, 'msg': msg, 'stack': '', 'scenario': 'rule'}

def headers(repo):
    found = []
    for d in ['', 'tls', 'include']:
        p = os.path.join(repo, d)
        if os.path.isdir(p):
            found += [os.path.join(d, f) for f in sorted(os.listdir(p)) if f.endswith(('.hpp', '.h')) and os.path.isfile(os.path.join(p, f))]
    return found

def odr(repo, work, build, compile_unit, Broken):
    """The headers can be included alone and together, in both orders, and define nothing that two source files may not both define"""
    gxx = ['g++', '-std=c++20', '-w', '-g', '-O0', '-pthread', '-include', 'cstdint', '-include', 'algorithm', '-I' + repo]
    hs = headers(repo)
    if len(hs) < 12:
        raise Broken('only %d headers found' % len(hs))
    units = {'all': hs, 'reversed': hs[::-1]}
    units.update({h: [h] for h in hs})
    def compiled(item):
        name, incs = item
        out = os.path.join(work, 'odr_' + re.sub(r'\W', '_', name))
        with open(out + '.cpp', 'w') as f:
            f.write(''.join('#include "%s"\n' % os.path.join(repo, h) for h in incs))
            if len(incs) == 1: # a second inclusion must have no effect
                f.write('#include "%s"\n' % os.path.join(repo, incs[0]))
        r = subprocess.run(gxx + ['-c', out + '.cpp', '-o', out + '.o'], capture_output=True, text=True)
        if r.returncode:
            first = next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[:200])
            return name, None, first
        r = subprocess.run(['nm', '-C', '-l', '--defined-only', out + '.o'], capture_output=True, text=True)
        return name, r.stdout, ''
    alarms, obligations, symbols, seen = [], 0, 0, set()
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for name, text, error in pool.map(compiled, units.items()):
            obligations += 1
            if text is None:
                loc = re.match(r'(?:.*/)?([^/:]+:\d+)', error)
                alarms.append(alarm('not self-contained', loc.group(1) if loc else name + ':0', name, 'a source file that includes %s does not compile: %s' % (name if name in hs else 'all headers (%s order)' % name, error.strip()[:300])))
                continue
            for line in text.splitlines():
                m = re.match(r'[0-9a-f]* +(\w) (.*?)(?:\t(.*))?$', line)
                if not m or m.group(1) == 'U':
                    continue
                kind, sym, where = m.groups()
                ours = bool(where and where.startswith(repo + '/')) or bool(re.match(r'(guard variable for )?Bomba::', sym))
                if not ours or sym.startswith(('_GLOBAL__', '__static_init')):
                    continue
                symbols += 1
                if (kind, sym) in seen:
                    continue
                seen.add((kind, sym))
                loc = os.path.relpath(where, repo) if where and where.startswith(repo + '/') else name + ':0'
                if kind in 'TDBRGSC':
                    alarms.append(alarm('defined in every source file', loc, sym, '%s is neither inline nor a template, so two source files that include %s do not link' % (sym, loc.split(':')[0])))
                elif kind in 'dbs' and not sym.startswith(('vtable', 'typeinfo', '.L')):
                    alarms.append(alarm('state not shared', loc, sym, 'every source file that includes the header has its own copy of the variable %s' % sym))
    return alarms, {'obligations': obligations + symbols, 'discharged': obligations + symbols - len(alarms), 'headers': hs, 'symbols_inspected': symbols,
                    'summary': '%d headers compiled alone, together and in reverse order; linkage of %d symbols inspected' % (len(hs), symbols)}
