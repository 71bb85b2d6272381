import ast,sys,json,random
kinds=sys.argv[1].split(','); files=sys.argv[2:]
out=[]
for f in files:
    src=open('/repo/'+f).read(); t=ast.parse(src); lines=src.splitlines(keepends=True)
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    for n in ast.walk(t):
        if not isinstance(n,ast.FunctionDef) or (n.name.startswith('__')): continue
        if any(not(isinstance(d,ast.Name) and d.id in('property','staticmethod','classmethod')) for d in n.decorator_list): continue
        if n.name in ('_run_old','run_hybrid_multi','use_gpu','use_cpu'): continue
        s=off[n.lineno-1]+n.col_offset
        for k in kinds:
            if k=='owner' and any(isinstance(d,ast.Name) and d.id=='property' for d in n.decorator_list): continue
            out.append(dict(file=f,start=s,end=s,new=f"@__import__('longitudinal_tomography._vtmut', fromlist=['x']).{k}\n"+' '*n.col_offset,old=n.name,what='wrap '+k,line=n.lineno))
json.dump(out,sys.stdout); print(len(out),file=sys.stderr)
