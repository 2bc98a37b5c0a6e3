"""match statements as the chains of if statements they stand for"""
import ast
import copy

PLAIN = {'int', 'float', 'str', 'bool', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset', 'bytearray'}


class Unknown(Exception):
    pass


def _and(tests):
    tests = [t for t in tests if t is not None]
    if not tests:
        return None
    return tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)


def _call(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])


def pattern(p, x):
    """(condition or None for always, [(name, expression)]) of an expression against a pattern"""
    def sub():
        return copy.deepcopy(x)
    if isinstance(p, ast.MatchValue):
        return ast.Compare(sub(), [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(sub(), [ast.Is()], [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchOr):
        tests = []
        for q in p.patterns:
            t, b = pattern(q, x)
            if b:
                raise Unknown
            if t is None:
                return None, []
            tests.append(t)
        return ast.BoolOp(ast.Or(), tests), []
    if isinstance(p, ast.MatchAs):
        t, b = (None, []) if p.pattern is None else pattern(p.pattern, x)
        return t, b + ([(p.name, sub())] if p.name else [])
    if isinstance(p, ast.MatchClass):
        tests, binds = [_call('isinstance', sub(), p.cls)], []
        if len(p.patterns) > 1 or p.patterns and not (isinstance(p.cls, ast.Name) and p.cls.id in PLAIN):
            raise Unknown
        for q in p.patterns:
            t, b = pattern(q, x)
            tests.append(t)
            binds += b
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            t, b = pattern(q, ast.Attribute(sub(), a, ast.Load()))
            tests.append(t)
            binds += b
        return _and(tests), binds
    if isinstance(p, ast.MatchMapping) and p.rest is None:
        tests, binds = [_call('isinstance', sub(), ast.Name('dict', ast.Load()))], []
        for k, q in zip(p.keys, p.patterns):
            tests.append(ast.Compare(copy.deepcopy(k), [ast.In()], [sub()]))
            t, b = pattern(q, ast.Subscript(sub(), copy.deepcopy(k), ast.Load()))
            tests.append(t)
            binds += b
        return _and(tests), binds
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        if isinstance(x, ast.Tuple):
            if len(x.elts) != len(p.patterns):
                return ast.Constant(False), []
            tests, items = [], x.elts
        else:
            both = ast.Tuple([ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())
            tests = [_call('isinstance', sub(), both),
                     ast.Compare(_call('len', sub()), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            items = [ast.Subscript(sub(), ast.Constant(i), ast.Load()) for i in range(len(p.patterns))]
        binds = []
        for q, y in zip(p.patterns, items):
            t, b = pattern(q, y)
            tests.append(t)
            binds += b
        return _and(tests), binds
    raise Unknown


class _Names(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        return copy.deepcopy(self.env[n.id]) if isinstance(n.ctx, ast.Load) and n.id in self.env else n


class Unmatch(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def temp(self, value, out, at):
        self.n += 1
        name = '_match_%d' % self.n
        out.append(ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], value), at))
        return ast.Name(name, ast.Load())

    def visit_Match(self, s):
        self.generic_visit(s)
        head = []
        try:
            if isinstance(s.subject, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.subject.elts):
                x = ast.Tuple([self.temp(e, head, s) for e in s.subject.elts], ast.Load())
            elif isinstance(s.subject, ast.Name):
                x = s.subject
            else:
                x = self.temp(s.subject, head, s)
            chain = []
            for c in reversed(s.cases):
                t, binds = pattern(c.pattern, x)
                if c.guard is not None:
                    t = _and([t, _Names(dict(binds)).visit(copy.deepcopy(c.guard))])
                body = [ast.Assign([ast.Name(n, ast.Store())], e) for n, e in binds] + c.body
                chain = body if t is None else [ast.If(t, body, chain)]
        except Unknown:
            return s
        out = head + (chain or [ast.Pass()])
        for n in out:
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
        return out


def unmatch(tree):
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = Unmatch().visit(tree)
        ast.fix_missing_locations(tree)
    return tree
