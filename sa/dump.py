"""debug aid: print the fact tree of functions matching a name"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
def show(n, d=0, out=sys.stdout):
    if n is None: print('  '*d+'~', file=out); return
    print('  '*d + n.k + ' ' + ' '.join(f"{k}={v}" for k,v in n.a.items() if k not in('caps',)) + f"  @{n.l}" + (f" M:{n.mac}" if n.mac else ''), file=out)
    if n.a.get('caps'): print('  '*d+'  caps',[ (c.get('n'),c.get('id'),{k:v for k,v in c.items() if k not in('n','id','init')}) for c in n.a['caps']], file=out)
    for c in n.c: show(c,d+1,out)
if __name__=='__main__':
    P=Prog()
    for f in P.named(sys.argv[1]):
        print('==',f,f.id,f.targs,f.cargs,f.params,'dep' if f.dep else '')
        for i in f.inits:
            print(' init',{k:v for k,v in i.items() if k!='e'}); 
            if i.get('e') is not None: show(i['e'],2)
        show(f.body,1)
