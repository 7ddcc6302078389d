import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),'rules'))
from engine import *; from common import Check
t=time.time(); P=Prog(); E=Engine(P); print('load',time.time()-t)
for name in sys.argv[1:]:
    v='-v' in sys.argv
    if name=='-v': continue
    m=importlib.import_module(name); C=Check(name); t=time.time(); m.run(P,E,C)
    from collections import Counter
    print(name, 'inst',len(C.inst),'viol',len(C.viol),f'{time.time()-t:.1f}s', Counter(i[0] for i in C.inst))
    for x in C.viol: print('  V',x)
    for x in C.notes: print('  note',x)
    if v:
        for x in C.inst: print('   ',x)
    for r,n in C.minima:
        k=sum(1 for i in C.inst if i[0]==r)
        if k<n: print('  MIN',r,k,'<',n)
