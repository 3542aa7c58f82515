# Which planted bugs change lines of the original repository: by content, whatever the lines have moved by
import re,subprocess,glob
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None;orig=mine=0;bl={}
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip(); continue
        if f and l.startswith('-') and not l.startswith('---') and l[1:].strip():
            t=l[1:].rstrip('\n')
            if f not in bl: bl[f]=subprocess.run(['git','-C','/repo','blame','-l','-s','HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
            hs=[x.split()[0].lstrip('^') for x in bl[f] if re.sub(r'^\S+ .*?\d+\) ?','',x,count=1)==t]
            if any(subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',h,'363ba41']).returncode==0 for h in hs): orig+=1
            else: mine+=1
    if not orig: print(p.split('/')[-2],'orig',orig,'mine',mine)
