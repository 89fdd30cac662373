"""Mutation experiment: small random changes to /repo/src, each judged by every check in a private
copy. mutate.py OUT WORKERS RUNS [FILTER]   (FILTER: regular expression on "file:line:kind")
Appends one JSON line per mutant to OUT. Touches neither /repo nor /verif."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
OUT, NW, RUNS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
FILTER = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
FILES = ['blocks.rs', 'put.rs', 'del.rs', 'tree.rs', 'lib.rs', 'traverse.rs', 'prefixed.rs', 'changes.rs', 'keys.rs', 'hb.rs', 'ffi.rs', 'external.rs']
PROPS = ['C06', 'C08', 'C16', 'C15', 'C12', 'C19', 'C10', 'C11', 'C03', 'C02', 'C13', 'C09', 'C14', 'C01', 'C04', 'C05', 'C07', 'C20', 'C21', 'C22']
ALL = 'ALL' in os.environ   # judge by every check even after one has found the mutant
QUICK = dict(C01=60, C02=60, C03=75, C04=75, C05=30, C06=30, C07=150, C08=45, C09=45, C10=45, C11=45, C12=90, C13=75, C14=75, C15=120, C16=90, C19=45, C20=45, C21=45, C22=45)
SUB = [(r' < ', ' <= ', 'lt'), (r' <= ', ' < ', 'le'), (r' > ', ' >= ', 'gt'), (r' >= ', ' > ', 'ge'), (r' == ', ' != ', 'eq'), (r' != ', ' == ', 'ne'),
       (r' \+ 1\b', '', 'plus1'), (r' - 1\b', '', 'minus1'), (r' \+ 1\b', ' + 2', 'plus2'), (r' >> 1', '', 'shr'), (r' \* 2', '', 'mul'),
       (r'\btrue\b', 'false', 'true'), (r'\bfalse\b', 'true', 'false'), (r' && ', ' || ', 'and'), (r' \|\| ', ' && ', 'or'),
       (r'\bLeft\b', 'Right', 'left'), (r'\bRight\b', 'Left', 'right'), (r'\bPositive\b', 'Negative', 'pos'), (r'\bNegative\b', 'Positive', 'neg'),
       (r'\.remove\(0\)', '.pop().unwrap()', 'rem0'), (r'\.insert\(0, (\w+)\)', r'.push(\1)', 'ins0'), (r'\.push\((\w+)\)', r'.insert(0, \1)', 'push'),
       (r'\.rev\(\)', '', 'rev'), (r'\.read\(\)\.await', '.write().await', 'wlock'), (r'\bbreak\b', 'continue', 'brk'), (r'\.is_empty\(\)', '.is_empty() == false', 'empty'),
       (r'(\d+)\.\.', r'(\1+1)..', 'range'), (r'\.\.=', '..', 'incl'), (r'\bis_some\(\)', 'is_none()', 'some'), (r'\bkey_index\b', 'key_index.saturating_sub(1)', 'ki'),
       (r'\.clone\(\)\.await\?', '.await?', 'x'), (r'-1\b', '0', 'neg1'), (r'\b0\b', '1', 'zero'), (r'\b1\b', '0', 'one'), (r'\b8\b', '7', 'eight'), (r'min_keys\(', '1 + min_keys(', 'mk')]
def mutants():
    out = []
    for f in FILES:
        lines = open('/repo/src/' + f).read().split('\n')
        end = next((i for i, l in enumerate(lines) if l.startswith('#[cfg(test)]') and 'mod test' in '\n'.join(lines[i:i + 40])), len(lines))
        for i in range(end):
            l = lines[i]; code = l.split('//')[0]
            if not code.strip() or code.strip().startswith(('#', 'use ', 'trace!', 'info!', '///')): continue
            for pat, rep, kind in SUB:
                for k, m in enumerate(re.finditer(pat, code)):
                    out.append((f, i, kind + str(k), code[:m.start()] + re.sub(pat, rep, m.group(0)) + code[m.end():]))
            st = code.strip()
            if st.endswith(';') and not st.startswith(('let ', 'return', '}', ')', '.', 'break', 'continue', 'mod ', 'pub ', 'type ', 'static ')) and st.count('(') == st.count(')') and not lines[i - 1].rstrip().endswith(('=', '(', ',')):
                out.append((f, i, 'del', ''))
            if st.endswith('.await?;') or st.endswith(')?;'):
                out.append((f, i, 'swallow', code.replace('?;', '.ok();') if st.startswith('let') is False else code))
            if st.startswith('return ') or st.startswith('break '):
                out.append((f, i, 'delret', ''))
    return [(f, i, k, n) for f, i, k, n in out]
def main():
    ms = mutants()
    if FILTER: ms = [m for m in ms if FILTER.search(f'{m[0]}:{m[1]+1}:{m[2]}')]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l); done.add((d['file'], d['line'], d['kind']))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2]) not in done]
    random.Random(5).shuffle(ms)
    print(len(ms), 'mutants', flush=True)
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock()
    def work(w):
        base = tempfile.mkdtemp(prefix=f'mut{w}-')
        try:
            shutil.copytree('/verif/sim', base + '/sim', symlinks=True, ignore=shutil.ignore_patterns('.lock'))
            os.remove(base + '/sim/hyperbee/src'); shutil.copytree('/repo/src', base + '/sim/hyperbee/src')
            shutil.copy('/verif/known_findings.txt', base)
            env = dict(os.environ, VERIF_DIR=base, CARGO_TARGET_DIR=base + '/sim/target', CARGO_NET_OFFLINE='true')
            while True:
                try: f, i, kind, new = q.get_nowait()
                except queue.Empty: return
                p = f'{base}/sim/hyperbee/src/{f}'
                orig = open('/repo/src/' + f).read(); ls = orig.split('\n'); old = ls[i]; ls[i] = new
                open(p, 'w').write('\n'.join(ls))
                r = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=base + '/sim', env=env, capture_output=True, text=True)
                res = {'file': f, 'line': i + 1, 'kind': kind, 'old': old.strip(), 'new': new.strip()}
                if r.returncode: res['build'] = False
                else:
                    res['by'] = {}
                    for prop in PROPS:
                        if res['by'] and not ALL: break
                        try:
                            c = subprocess.run([base + '/sim/target/debug/hbsim', 'check', '--property', prop, '--runs', str(int(QUICK[prop] * 1000 * RUNS)), '--secs', '60', '--workers', '1', '--brief', '1'], env=env, capture_output=True, text=True, timeout=150)
                            if c.returncode: res['by'][prop] = f'{c.returncode} {c.stdout.strip()[:200]} {c.stderr.strip()[:100]}'
                        except subprocess.TimeoutExpired: res['by'][prop] = 'timeout'
                open(p, 'w').write(orig)
                with lock: open(OUT, 'a').write(json.dumps(res) + '\n')
        finally: shutil.rmtree(base)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(NW)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
