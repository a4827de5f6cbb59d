"""covrep.py DIR : lines of the package never executed by the runs recorded with VERIF_COV=DIR/Cxx.txt."""
import ast,glob,os,sys,collections
hit=collections.defaultdict(set)
for f in glob.glob(''+sys.argv[1]+'/C*.txt'):
    for l in open(f):
        a,b=l.rsplit(':',1); hit[a].add(int(b))
R='/repo/src/direpack/'
for p in sorted(glob.glob(R+'**/*.py',recursive=True)):
    r=p[len(R):]
    if r.startswith('test') : continue
    co=compile(open(p).read(),p,'exec'); lines=set()
    def walk(c):
        for _,_,n in c.co_lines():
            if n: lines.add(n)
        for k in c.co_consts:
            if hasattr(k,'co_code'): walk(k)
    walk(co)
    src=open(p).read().split('\n')
    # drop def/decorator/docstring lines not matter
    miss=sorted(n for n in lines-hit[r] if n>0)
    print('##',r,len(lines),'missing',len(miss))
    for n in miss: print('   %4d %s'%(n,src[n-1][:110]))
