"""list mutants of the RTL: (file, line, col, old, new) as text edits"""
import ast, sys, random, json
R='/repo/'
FILES=['blocking_cache/BlockingCacheCtrlRTL.py','blocking_cache/BlockingCacheDpathRTL.py','blocking_cache/units/MSHR.py','blocking_cache/units/ReplacementPolicy.py','blocking_cache/units/StallEngine.py','blocking_cache/units/UpdateTagArrayUnit.py','blocking_cache/units/arithmetics.py','blocking_cache/units/counters.py','blocking_cache/units/muxes.py','blocking_cache/units/registers.py']
out=[]
for f in FILES:
    src=open(R+f).read(); lines=src.split('\n'); T=ast.parse(src)
    off=[0]
    for l in lines: off.append(off[-1]+len(l)+1)
    pos=lambda n:(off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset)
    seg=lambda n:src[pos(n)[0]:pos(n)[1]]
    skip=set()
    for n in ast.walk(T):
        if isinstance(n,ast.FunctionDef) and n.name=='line_trace': skip.add((n.lineno,n.end_lineno))
    ok=lambda n: not any(a<=n.lineno<=b for a,b in skip)
    def add(n,new,kind): out.append(dict(f=f,line=n.lineno,a=pos(n)[0],b=pos(n)[1],old=seg(n),new=new,kind=kind))
    for n in ast.walk(T):
        if not hasattr(n,'lineno') or not ok(n): continue
        if isinstance(n,ast.If):
            add(n.test,'~(%s)'%seg(n.test) if not isinstance(n.test,ast.Compare) else {ast.Eq:'%s != %s',ast.NotEq:'%s == %s'}.get(type(n.test.ops[0]),'%s >= %s')%(seg(n.test.left),seg(n.test.comparators[0])),'ifneg')
        elif isinstance(n,ast.BinOp) and isinstance(n.op,(ast.BitAnd,ast.BitOr)):
            o=' | ' if isinstance(n.op,ast.BitAnd) else ' & '
            add(n,seg(n.left)+o+seg(n.right),'andor'); add(n,seg(n.left),'left'); add(n,seg(n.right),'right')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Invert): add(n,seg(n.operand),'noinv')
        elif isinstance(n,ast.AugAssign):
            if seg(n).count('\n')<4: add(n,'_ = 0','del')
            if isinstance(n.value,ast.Name) and n.value.id in('y','n'): add(n.value,'n' if n.value.id=='y' else 'y','flip')
        elif isinstance(n,ast.Compare) and isinstance(n.comparators[0],ast.Name) and n.comparators[0].id.startswith(('TRANS_TYPE','M0_FSM','M1_FSM','M2_FSM')):
            pass
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id in('CS','CSM0','concat') : pass
    # control-signal tables: flip each y/n argument
    for n in ast.walk(T):
        if isinstance(n,ast.Name) and n.id in('y','n') and ok(n) and isinstance(n.ctx,ast.Load): add(n,'n' if n.id=='y' else 'y','flip')
        if isinstance(n,ast.Constant) and type(n.value) is int and n.value in(0,1) and ok(n): add(n,str(1-n.value),'c01')
seen=set(); res=[]
for m in out:
    k=(m['f'],m['a'],m['b'],m['new'])
    if k in seen or m['old']==m['new']: continue
    seen.add(k); res.append(m)
json.dump(res,open('/tmp/w1/mut/list.json','w'))
import collections
print(len(res),collections.Counter(m['kind'] for m in res),collections.Counter(m['f'].split('/')[-1] for m in res))
