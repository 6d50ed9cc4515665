"""Records the loops of every function under a loop contract (authoring tool): run when loop contracts are written."""
import ast, importlib, json, os, pkgutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vc import loops
import contracts
for m in pkgutil.iter_modules(contracts.__path__): importlib.import_module('contracts.' + m.name)
mods = {}
for mod in sorted({m for m, _ in loops.SPECS} | {'vmoe.nn.vit_moe', 'vmoe.nn.vit_moe_ensemble'}):
  sh = loops.shapes(ast.parse(open('/repo/' + mod.replace('.', '/') + '.py').read()))
  qs = {i.rsplit('#', 1)[0] for m, i in loops.SPECS if m == mod} or {'EncoderMoe.__call__', 'EncoderMoeEnsemble.__call__'}
  mods[mod] = {q: sh[q] for q in sorted(qs) if q in sh}
json.dump(mods, open(loops.SHAPES, 'w'), indent=1, sort_keys=True)
