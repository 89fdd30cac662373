"""Writes /verif/seeded/<id>/ from the definitions in this folder, and checks the demonstrations.
mk.py write [ID..]    patch.diff, demo.sh, kit/, meta.json
mk.py demo  [ID..]    each demo on a scratch copy of /repo without and with its patch
A definition is a folder-less text file ID.txt: sections started by lines "@@@ name":
meta (json), edit FILE (old and new separated by a line "====", several allowed), demo (main.rs),
ffi (optional: a module appended to src/ffi.rs in the demo's copy)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = '/verif'
def load(i):
    secs = []
    for line in open(f'{HERE}/{i}.txt'):
        if line.startswith('@@@ '): secs.append([line[4:].strip(), ''])
        else: secs[-1][1] += line
    return secs
def ids():
    return sys.argv[2:] or sorted(f[:-4] for f in os.listdir(HERE) if f.endswith('.txt'))
def scratch():
    t = tempfile.mkdtemp(prefix='seedrepo')
    subprocess.check_call(['git', 'clone', '-q', os.environ.get('REPO', '/repo'), t + '/repo'])
    return t + '/repo'
def write(i, repo):
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    d = f'{V}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(f'{V}/tools/demokit', d + '/kit', ignore=shutil.ignore_patterns('target', 'Cargo.lock', 'demo.sh'))
    shutil.copy(f'{V}/tools/demokit/demo.sh', d)
    for name, text in load(i):
        if name == 'meta': json.dump(json.loads(text), open(d + '/meta.json', 'w'), indent=1)
        elif name == 'demo': open(d + '/kit/demo/src/main.rs', 'w').write(text)
        elif name == 'ffi':
            os.makedirs(d + '/kit/append'); open(d + '/kit/append/ffi.rs', 'w').write(text)
            open(d + '/kit/features', 'w').write('ffi')
        elif name.startswith('edit '):
            p = f'{repo}/{name[5:]}'
            old, new = text.split('\n====\n'); old = old.rstrip('\n'); new = new.rstrip('\n')
            s = open(p).read()
            assert s.count(old) == 1, (i, name, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        else: raise Exception(name)
    diff = subprocess.check_output(['git', '-C', repo, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
def demo(i, repo):
    for patched in (False, True):
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        if patched: subprocess.check_call(['git', '-C', repo, 'apply', f'{V}/seeded/{i}/patch.diff'])
        t = tempfile.mkdtemp(prefix='seeddemo')
        shutil.copytree(f'{V}/seeded/{i}/kit', t + '/kit'); shutil.copy(f'{V}/seeded/{i}/demo.sh', t)
        r = subprocess.run(['bash', t + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        shutil.rmtree(t)
        ok = (r.returncode != 0 and r.returncode not in (8, 9)) if patched else r.returncode == 0
        print(i, 'patched' if patched else 'clean', r.returncode, 'ok' if ok else 'BAD', flush=True)
        if not ok or patched: print('   ', (r.stdout + r.stderr)[-1500 if not ok else -300:].strip().replace('\n', '\n    '))
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
repo = scratch()
try:
    for i in ids(): {'write': write, 'demo': demo}[sys.argv[1]](i, repo)
finally:
    shutil.rmtree(os.path.dirname(repo))
