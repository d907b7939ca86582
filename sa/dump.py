import sys
sys.argv=[sys.argv[0]]+sys.argv[1:]
src=open('run0.py').read()
exec(src.split("names=sys.argv")[0])
n=sys.argv[1]
for i,o in enumerate(e.summary(n)):
    print('---',i,'ret',o.ret)
    for b,ob in o.mem.items(): print('   mem',b,ob.status,{k:v for k,v in ob.cells.items()},ob.content)
    print('   eq',o.eq); print('   neq',o.neq); print('   rng',o.rng); print('   assumed',list(o.assumed)); 
