"""The planted bugs of tools/seeds as trials: python3 trial.py fromseeds.py [WORKERS] [ID-REGEX]"""
import os, json, glob
BUGS = []
for f in sorted(glob.glob('/verif/tools/seeds/*.txt')):
    secs = []
    for line in open(f):
        if line.startswith('@@@ '): secs.append([line[4:].strip(), ''])
        else: secs[-1][1] += line
    meta = [json.loads(t) for n, t in secs if n == 'meta'][0]
    edits = [(n[9:],) + tuple(t.split('\n====\n')) for n, t in secs if n.startswith('edit src/')]
    BUGS.append((os.path.basename(f)[:-4], meta['property'], edits))
