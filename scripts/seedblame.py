#!/usr/bin/env python3
# for each seeded patch: are the removed lines (or the neighbours of pure insertions) lines of the original repository?
import subprocess,glob,re,sys
base=subprocess.check_output(['git','rev-list','--max-parents=0','HEAD'],cwd='/repo',text=True).strip()[:7]
cache={}
def blame(f):
    if f not in cache:
        o=subprocess.check_output(['git','blame','-s','HEAD','--',f],cwd='/repo',text=True).splitlines()
        cache[f]=[l.split()[0].lstrip('^')[:7]==base for l in o]
    return cache[f]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; rem=[]; own=0; ins=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'):
            n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            rem.append(blame(f)[n-1]); n+=1
        elif l.startswith('+'): ins+=1
        elif f: n+=1
    print(p.split('/')[3], 'removed', len(rem), 'original', sum(rem), '' if rem and all(rem) else '<<<<' )
