"""Vacuity check: statements and branch outcomes of repository functions no obligation ever reaches.

python3 tools/reach.py [PATTERN]: DEAD lines are statements, BRANCH lines conditions that are constant, UNSEEN functions
no obligation enters."""
import sys,ast
sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
from vf import core, runner, show, interp
from vf.core import FALSE
from vf.summary import *
P=runner.load_program()
seen=set()
oe=interp.Interp.expr; os_=interp.Interp.stmt
def e(self,x,*a,**k):
    if self.pc is not FALSE: seen.add((self.frames[-1].fn.mod,getattr(x,'lineno',0),getattr(x,'col_offset',0),type(x).__name__))
    return oe(self,x,*a,**k)
def s(self,x):
    if self.pc is not FALSE: seen.add((self.frames[-1].fn.mod,x.lineno,x.col_offset,type(x).__name__))
    return os_(self,x)
interp.Interp.expr=e; interp.Interp.stmt=s
fns={}
br={}
def sif2(self,x):
    c=self.truth(self.expr(x.test))
    k=(self.frames[-1].fn.mod,x.test.lineno,x.test.col_offset)
    r=br.setdefault(k,set())
    pc0=self.pc
    if core.AND(pc0,c) is not FALSE: r.add('T')
    if core.AND(pc0,core.NOT(c)) is not FALSE: r.add('F')
    self.pc=core.AND(pc0,c)
    if self.pc is not FALSE: self.block(x.body)
    p1=self.pc
    self.pc=core.AND(pc0,core.NOT(c))
    if self.pc is not FALSE: self.block(x.orelse)
    self.pc=core.OR(p1,self.pc)
interp.Interp.s_If=sif2
pat=sys.argv[1] if len(sys.argv)>1 else ''

import vf.runner as R
for o in runner.obligations(P):
    if pat not in o.name: continue
    if getattr(o,'target',None):
        t=P.get(o.target)
        if hasattr(t,'node') and isinstance(t.node,ast.FunctionDef): fns[t.qual]=t
        elif t is not None and hasattr(t,'methods'):
            m=P.method(t,'__init__')
            if m: fns[m.qual]=m
        if getattr(o,'spec',None) is not None: fns[o.spec.qual]=o.spec
    try: R.run_ob(P,o)
    except Exception as x: print('EXC',o.name,repr(x)[:100])
for q,f in sorted(fns.items()):
    if not isinstance(f.node,ast.FunctionDef): continue
    for n in ast.walk(f.node):
        parts=[]
        if isinstance(n,(ast.Pass,ast.Import,ast.ImportFrom)): continue
        if isinstance(n,ast.stmt) and n is not f.node: parts=[n]
        if isinstance(n,ast.IfExp): parts=[n.body,n.orelse]
        if isinstance(n,ast.BoolOp): parts=n.values[1:]
        if isinstance(n,(ast.ListComp,ast.SetComp,ast.GeneratorExp)): parts=[n.elt]
        for x in parts:
            if isinstance(x,ast.Expr) and isinstance(x.value,ast.Constant): continue
            if (f.mod,x.lineno,x.col_offset,type(x).__name__) not in seen:
                print('DEAD',q,x.lineno,ast.unparse(x).split('\n')[0][:100])

        if isinstance(n,ast.If):
            r=br.get((f.mod,n.test.lineno,n.test.col_offset),set())
            if len(r)<2: print('BRANCH',q,n.lineno,ast.unparse(n.test)[:100],r)

if pat=='':
    for m in P.mods.values():
        if m.name.startswith('spec') or 'fitting' in m.name or '.ga' in m.name: continue
        for n in ast.walk(m.tree):
            if isinstance(n,ast.FunctionDef):
                ok=any(k[0] is m and n.body[0].lineno<=k[1]<=n.end_lineno for k in seen)
                if not ok and not (isinstance(n.body[0],ast.Pass) or isinstance(n.body[0],ast.Raise)): print('UNSEEN',m.name,n.name,n.lineno)
