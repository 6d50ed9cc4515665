import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib
importlib.import_module('contracts.'+sys.argv[1])
from vc import engine
for p,hs in engine.HARNESSES.items():
  for h in hs:
    if len([a for a in sys.argv if a!='-v'])>2 and h.name not in sys.argv[2:] and p not in sys.argv[2:]: continue
    r=engine.run_harness(h)
    print(p,h.name,'paths',r['paths'],'covers',r['covers'],'sec',r['seconds'],'err',(r['error'] or '')[-700:])
    agg={}
    for o in r['obligations']:
      k=(o['name'],o['status'],o.get('detail','')); a=agg.setdefault(k,[0,0,o]); a[0]+=1; a[1]+=o['seconds']
    if '-v' not in sys.argv: print('    proved:', sum(a[0] for k,a in agg.items() if k[1]=='proved'))
    for (n,st,d),(c,sec,o) in agg.items():
      if st=='proved' and '-v' not in sys.argv: continue
      print('   ',n,st,'x%d'%c,'%.2fs'%sec,d,(str(o.get('model'))[:700] if st=='refuted' else ''))
    if '-v' in sys.argv: print('   ',r['functions'])
