"""Trial edits without demonstrations: trial.py FILE.py [WORKERS] [ID-REGEX]
FILE.py defines BUGS = [(id, 'C03 C10', [(file, old, new), ...])] (each to be found by the quick checks named)
and SAME = [(id, edits)] (edits that keep the behaviour: every quick check must stay quiet).
Each is built and judged in a private copy; touches neither /repo nor /verif. Results: /tmp/trial.jsonl"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, threading, queue, time
F = sys.argv[1]; NW = int(sys.argv[2]) if len(sys.argv) > 2 else 2
RX = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
ALL = ['C%02d' % i for i in range(1, 17)] + ['C19', 'C20', 'C21', 'C22']
ns = runpy.run_path(F)
jobs = [(i, p.split(), e, True) for i, p, e in ns.get('BUGS', [])] + [(i, os.environ.get('PROPS', '').split() or ns.get('SAME_PROPS', ALL), e, False) for i, e in ns.get('SAME', [])]
if RX: jobs = [j for j in jobs if RX.search(j[0])]
SECS = os.environ.get('SECS', '120'); lock = threading.Lock(); q = queue.Queue(); [q.put(j) for j in jobs]
SCALE = float(os.environ.get('SCALE', '1'))
QUICK = dict(C01=60, C02=60, C03=75, C04=75, C05=30, C06=30, C07=150, C08=45, C09=45, C10=45, C11=45, C12=90, C13=75, C14=75, C15=120, C16=90, C19=45, C20=45, C21=45, C22=45)
def say(r):
    with lock:
        open('/tmp/trial.jsonl', 'a').write(json.dumps(r) + '\n')
        print(*r, flush=True)
def work(w):
    base = tempfile.mkdtemp(prefix=f'trial{w}-')
    try:
        shutil.copytree('/verif/sim', base + '/sim', symlinks=True, ignore=shutil.ignore_patterns('.lock'))
        os.remove(base + '/sim/hyperbee/src'); shutil.copytree('/repo/src', base + '/sim/hyperbee/src')
        shutil.copy('/verif/known_findings.txt', base)
        env = dict(os.environ, VERIF_DIR=base, CARGO_TARGET_DIR=base + '/sim/target', CARGO_NET_OFFLINE='true')
        while True:
            try: i, props, edits, bug = q.get_nowait()
            except queue.Empty: return
            shutil.rmtree(base + '/sim/hyperbee/src'); shutil.copytree('/repo/src', base + '/sim/hyperbee/src')
            bad = None
            for f, old, new in edits:
                p = f'{base}/sim/hyperbee/src/{f}'; s = open(p).read(); old = old.strip('\n'); new = new.strip('\n')
                if s.count(old) != 1: bad = f'{f}: {s.count(old)} occurrences of {old[:60]!r}'; break
                open(p, 'w').write(s.replace(old, new))
                os.utime(p)
            if bad: say((i, 'EDIT', bad)); continue
            subprocess.run('touch lib.rs *.rs schema.proto', shell=True, cwd=base + '/sim/hyperbee/src')
            r = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=base + '/sim', env=env, capture_output=True, text=True)
            if r.returncode: say((i, 'BUILD', r.stderr[:1500])); continue
            for prop in props:
                t = time.time()
                try:
                    c = subprocess.run([base + '/sim/target/debug/hbsim', 'check', '--property', prop, '--runs', str(int(QUICK[prop] * 1000 * SCALE)), '--secs', SECS, '--workers', '3', '--brief', '1'], env=env, capture_output=True, text=True, timeout=400)
                    o = (c.stdout.strip()[:260] + c.stderr.strip()[:200]).replace('\n', ' '); rc = c.returncode
                except subprocess.TimeoutExpired: rc, o = -9, 'timeout'
                good = (rc == 1) == bug and rc in (0, 1)
                say((i, prop, 'ok' if good else '**MISSED**' if bug else '**ALARM**', rc, f'{time.time()-t:.0f}s', o))
    finally: shutil.rmtree(base)
ts = [threading.Thread(target=work, args=(w,)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
