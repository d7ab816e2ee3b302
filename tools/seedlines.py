#!/usr/bin/env python3
"""For every planted bug: which of the lines it takes away or follows are of the original repository."""
import subprocess,sys,re,glob,os
def sh(c): return subprocess.run(c,shell=True,check=True,capture_output=True,text=True).stdout
base=sh('git -C /repo rev-list --max-parents=0 HEAD').split()[-1]
for d in sys.argv[1:] or sorted(glob.glob('/verif/seeded/*')):
    orig=mine=add=0
    f=None
    for l in open(d+'/patch.diff'):
        if l.startswith('--- '): f=l[6:].strip(); n=0; continue
        if l.startswith('+++ ') or l.startswith('diff') or l.startswith('index'): continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('-'):
            b=sh(f'git -C /repo blame -s -L {n},{n} {base}..HEAD -- {f}')
            if b.startswith('^'): orig+=1
            else: mine+=1
            n+=1
        elif l.startswith('+'): add+=1
        else: n+=1
    print(f'{os.path.basename(d):32} removed: original {orig}, later {mine}; added {add}')
