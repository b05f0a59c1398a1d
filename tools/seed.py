"""Development tool (not used by any check): build and evaluate planted changes.

  seed.py make SPEC.py        write seeded/<id>/ for every entry of SPEC.SEEDS
  seed.py eval [--jobs N] [--tests] [--checks C01,C02|own|all] ID...
     every change is applied to a scratch copy of /repo, bind-mounted over /repo in a
     private user and mount namespace; then demo (unchanged and changed), the tests and the checks run.
"""
import sys, os, json, subprocess, shutil, importlib.util, difflib, concurrent.futures as cf
SEEDED = os.environ.get('SEEDED', '/verif/seeded')

def make(spec):
    s = importlib.util.spec_from_file_location('spec', spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for e in m.SEEDS:
        d = os.path.join(SEEDED, e['id']); os.makedirs(d, exist_ok=True)
        diff = ''
        files = {}
        for f, old, new in e['edits']:
            t = files.get(f)
            if t is None:
                t = (open('/repo/' + f).read(),) * 2
            o, c = t
            if c.count(old) != 1:
                sys.exit(f"{e['id']}: {c.count(old)} matches in {f}: {old!r}")
            files[f] = (o, c.replace(old, new))
        for f, (o, c) in files.items():
            diff += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(o.splitlines(True), c.splitlines(True), 'a/' + f, 'b/' + f))
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(m.PRELUDE + e['demo'])
        json.dump({'property': e['property'], 'needs': e['needs'], 'what_it_breaks': e['breaks']}, open(d + '/meta.json', 'w'), indent=1)

def ns(copy, cmd, timeout=1000):
    # fakes nothing but the directory: /repo shows the scratch copy
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && ' + cmd], capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def evaluate(args):
    sid, tests, checks, patch = args
    d = os.path.join(SEEDED, sid)
    copy = f'/tmp/seedrun/{sid}'
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/seedrun', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    res = {'id': sid}
    try:
        demo = f'/tmp/seedrun/{sid}.demo'
        has_demo = os.path.exists(d + '/demo.sh') and not patch
        if has_demo:
            shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
            res['demo_clean'] = ns(copy, f'bash {demo}/demo.sh')[0]
        p = subprocess.run(['git', '-C', copy, 'apply', patch or d + '/patch.diff'], capture_output=True, text=True)
        if p.returncode:
            res['apply'] = p.stderr; return res
        rc, out = ns(copy, 'bash /opt/vp/build.sh')
        if rc:
            res['build'] = out[-800:]; return res
        if has_demo:
            rc, out = ns(copy, f'bash {demo}/demo.sh')
            res['demo_patched'] = rc, out.strip().splitlines()[-1:]
        if tests:
            ns(copy, f'bash /opt/vp/test.sh /tmp/seedrun/{sid}.json')
            t = json.load(open(f'/tmp/seedrun/{sid}.json')); b = json.load(open('/opt/vp/BASELINE.json'))
            want = b.get('stable') or b.get('passed') or b.get('tests') or b
            res['tests_lost'] = sorted(set(want) - set(t['passed']))
        res['checks'] = {}
        for c in checks:
            import time
            t0 = time.time()
            rc, out = ns(copy, f'cp -a /verif /tmp/seedrun/{sid}.v 2>/dev/null; cd /tmp/seedrun/{sid}.v && bin/check {c} -v')
            bad = [l for l in out.splitlines() if l.startswith('VIOLATION') or 'nconclusive' in l or 'nsupported' in l or 'DIVERG' in l or 'Traceback' in l]
            res['checks'][c] = (rc, round(time.time() - t0), bad[:6])
            open(f'/tmp/seedrun/{sid}.{c}.log', 'w').write(out)
            shutil.rmtree(f'/tmp/seedrun/{sid}.v', ignore_errors=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f'/tmp/seedrun/{sid}.demo', ignore_errors=True)
    return res

ALL = [f'C{i:02d}' for i in range(1, 60) if os.path.exists(f'/verif/harness/c{i:02d}.py')]
if sys.argv[1] == 'make':
    make(sys.argv[2])
elif sys.argv[1] == 'eval':
    a = sys.argv[2:]; jobs = 2; tests = False; mode = 'own'; ids = []; pdir = None
    while a:
        x = a.pop(0)
        if x == '--jobs': jobs = int(a.pop(0))
        elif x == '--tests': tests = True
        elif x == '--checks': mode = a.pop(0)
        elif x == '--patchdir': pdir = a.pop(0)
        else: ids.append(x)
    if not ids: ids = sorted(x[:-5] if pdir else x for x in os.listdir(pdir or SEEDED) if not pdir or x.endswith('.diff'))
    todo = []
    for i in ids:
        prop = None if pdir else json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
        ch = [prop] if mode == 'own' else ALL if mode == 'all' else [] if mode == 'none' else mode.split(',')
        todo.append((i, tests, ch, f'{pdir}/{i}.diff' if pdir else None))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(evaluate, todo):
            print(json.dumps(r), flush=True)
