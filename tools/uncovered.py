"""Lists functions of /repo/r_u_sure that no check executes (from evidence)."""
import ast, glob, json, os
seen=set()
for f in glob.glob('/verif/evidence/*.json'):
  seen.update(json.load(open(f))['coverage']['functions_encoded'])
for dp,_,fs in os.walk('/repo/r_u_sure'):
  for fn in sorted(fs):
    if not fn.endswith('.py') or fn.endswith('_test.py'): continue
    p=os.path.join(dp,fn); t=ast.parse(open(p).read())
    mod=os.path.relpath(p,'/repo')[:-3].replace('/','.')
    miss=[]; tot=0
    def walk(n,q):
      global tot
      for c in ast.iter_child_nodes(n):
        if isinstance(c,(ast.FunctionDef,ast.ClassDef)):
          name=q+[c.name]
          if isinstance(c,ast.FunctionDef):
            full=mod+'.'+'.'.join(name)
            if not any(s.startswith(mod) and s.replace(':','.').split('.')[-1]==c.name for s in seen): miss.append('.'.join(name))
          walk(c,name)
        else: walk(c,q)
    walk(t,[])
    if miss: print(mod,miss)
