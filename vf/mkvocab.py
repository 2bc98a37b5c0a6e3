"""Snapshot of the names the reference models were written against (run once, by hand):
functions, classes, attributes of the repository.  A name that is not in the snapshot is
something the analysis has no model for."""
import ast
import json
import os
from vf.load import Program

if __name__ == '__main__':
    p = Program()
    fns, attrs, methods = set(), set(), set()
    for f in p.functions():
        fns.add(f.qual)
        methods.add(f.node.name)
    for c in p.classes():
        fns.add(c.qual)
        attrs.update(c.anns)
        attrs.update(c.attrs)
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute):
                        a = x.attr
                        if a.startswith('__') and not a.endswith('__'):
                            a = '_' + n.name.lstrip('_') + a
                        attrs.add(a)
            elif isinstance(n, ast.Attribute):
                attrs.add(n.attr)
    out = os.path.join(os.path.dirname(__file__), 'vocab.json')
    json.dump({'functions': sorted(fns), 'attrs': sorted(attrs), 'methods': sorted(methods)}, open(out, 'w'), indent=0)
