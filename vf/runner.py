"""Runs the obligations of a property, prints the verdict, writes the evidence."""
import ast
import glob
import importlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

from vf import core
from vf import interp as I
from vf import summary as S
from vf.core import *
from vf.load import Program, Cls, Fn

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = {'quick': 60, 'thorough': 240}


class Ob:
    """one obligation: either a comparison (target, spec) or a function returning a Result"""
    def __init__(self, name, props, target=None, spec=None, opts=None, fn=None):
        self.name, self.props, self.target, self.spec, self.opts, self.fn = name, props, target, spec, opts or {}, fn


def load_program():
    extra = []
    for p in sorted(glob.glob(os.path.join(HERE, 'spec', '*.py'))):
        n = os.path.basename(p)[:-3]
        extra.append(('spec.' + n, p))
    prog = Program(extra=extra)
    own = {c: {x for x in prog.mro(c) if isinstance(x, str)} for c in prog.classes()}
    known = {'builtins.object', 'object', 'pydantic.BaseModel', 'networkx.DiGraph', 'abc.ABC'}
    core.PURE.clear()
    core.PURE.update(c.qual for c in own if all(own[d] <= known for d in own if d is c or prog.issub(d, c)))
    return prog


def obligations(prog):
    obs = []
    for m in prog.mods.values():
        if not m.name.startswith('spec.'):
            continue
        for d in m.defs.values():
            if d[0] == 'fn' and d[1].mod is m:
                for dec in d[1].node.decorator_list:
                    if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Name) and dec.func.id == 'of':
                        target = ast.literal_eval(dec.args[0])
                        props = ast.literal_eval(dec.args[1]).split()
                        opts = {k.arg: ast.literal_eval(k.value) for k in dec.keywords}
                        obs.append(Ob(d[1].qual + ' -> ' + target, props, target, d[1], opts))
    for p in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
        mod = importlib.import_module('props.' + os.path.basename(p)[:-3])
        for name, props, fn in getattr(mod, 'OBLIGATIONS', []):
            obs.append(Ob(name, props, fn=fn))
    return obs


# ------------------------------------------------------------------ vocabulary
VOC = None


def vocabulary():
    global VOC
    if VOC is None:
        d = json.load(open(os.path.join(HERE, 'vf', 'vocab.json')))
        VOC = {k: set(v) for k, v in d.items()}
    return VOC


def symbols(x, out, seen):
    if isinstance(x, tuple):
        for y in x:
            symbols(y, out, seen)
        return
    if not isinstance(x, (T, N)) or x.id in seen:
        return
    seen.add(x.id)
    if isinstance(x, N):
        if x.a is None:
            symbols(x.t, out, seen)
        else:
            symbols((x.a, x.hi, x.lo), out, seen)
        return
    if x.op in ('ext', 'func', 'meth', 'cls', 'glob'):
        out.add((x.op, x.args[0]))
    symbols(x.args, out, seen)


def make_vocab(b):
    """what may appear in a term that is compared"""
    voc = vocabulary()
    own = set()
    seen = set()
    symbols((b.ret, b.end, tuple(b.raises.values()), tuple(b.effects),
             tuple(x for x in b.writes.values())), own, seen)
    from vf import models, typing_tables as TT

    def known(x):
        k = (x.op, x.args[0])
        if k in own:
            return True
        if x.op == 'func':
            return x.args[0] in TT.STUBS
        if x.op == 'cls':
            return x.args[0] in voc['functions']
        if x.op == 'meth':
            return x.args[0] in voc['methods'] or x.args[0] in models.PURE or x.args[0] in models.RANDOM
        if x.op == 'ext':
            return models.known_ext(x.args[0])
        if x.op == 'glob':
            return True
        return False
    return known


# ------------------------------------------------------------------ running
def resolve_target(prog, q):
    return prog.get(q)


def private(n):
    return n.startswith('_') and not n.startswith('__')


def private_names(prog):
    """every private name defined or assigned in the analysed source, name-mangled as at run time"""
    r = getattr(prog, '_private', None)
    if r is None:
        r = set()
        for m in prog.mods.values():
            if m.name.startswith('spec.'):
                continue

            def walk(n, cls):
                for x in ast.iter_child_nodes(n):
                    nm = x.attr if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) else \
                        x.name if isinstance(x, ast.FunctionDef) else \
                        x.id if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else \
                        x.value if isinstance(x, ast.Constant) and isinstance(x.value, str) else None
                    if nm:
                        if nm.startswith('__') and not nm.endswith('__') and cls:
                            nm = '_' + cls.lstrip('_') + nm
                        r.add(nm)
                    walk(x, x.name if isinstance(x, ast.ClassDef) else cls)
            walk(m.tree, None)
        prog._private = r
    return r


def gone(prog, spec):
    """a private name the reference model is written against that the source does not have any more"""
    have = private_names(prog)
    seen, work = set(), [spec]
    while work:
        f = work.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and private(x.attr) and x.attr not in have:
                return x.attr
            if isinstance(x, ast.Name):
                d = f.mod.defs.get(x.id)
                if d and d[0] == 'fn' and d[1].mod.name.startswith('spec.'):
                    work.append(d[1])
    return None


def run_ob(prog, ob):
    core.reset()
    if ob.fn is not None:
        return ob.fn(prog)
    tgt = prog.get(ob.target)
    if ob.spec is not None:
        nm = gone(prog, ob.spec)
        if nm:
            return S.Result('UNDECIDED', [], why='the source has no %s any more' % nm)
    last = ob.target.rpartition(':')[2].rpartition('.')[2]
    if tgt is None and last.startswith('_') and not last.endswith('__'):
        return S.Result('UNDECIDED', [], why='%s does not exist any more' % ob.target)
    if tgt is None:
        return S.Result('VIOLATED', [], why='%s does not exist any more' % ob.target)
    r = S.compare(prog, tgt, ob.spec, ob.opts, make_vocab, vocabulary()['attrs'])
    # further readings of the same function, equivalent by a class invariant no comparison can see
    for nm in ob.opts.get('also', '').split():
        if r.verdict == 'HOLDS':
            break
        core.reset()
        also = ob.spec.mod.defs[nm][1]
        if S.compare(prog, tgt, also, ob.opts, make_vocab, vocabulary()['attrs']).verdict == 'HOLDS':
            r = S.Result('HOLDS', [], why='by the reading %s' % also.qual)
    return r


def _child(conn, prog, ob):
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def go():
        try:
            r = run_ob(prog, ob)
            out['r'] = dict(verdict=r.verdict, why=r.why, recs=[repr(x) for x in r.recs[:4]], stats=r.stats)
        except core.Blowup as e:
            out['r'] = dict(verdict='UNDECIDED', why=str(e), recs=[], stats={})
        except I.Give as e:
            out['r'] = dict(verdict='UNDECIDED', why=str(e), recs=[], stats={})
        except RecursionError:
            out['r'] = dict(verdict='UNDECIDED', why='recursion', recs=[], stats={})
        except Exception:
            out['r'] = dict(verdict='ERROR', why=traceback.format_exc()[-1500:], recs=[], stats={})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        conn.send(json.dumps(out['r'], default=str))
    except Exception as e:
        conn.send(json.dumps(dict(verdict='ERROR', why=str(e), recs=[], stats={})))
    conn.close()


def run_all(prog, obs, tier, jobs=8, verbose=False):
    ctx = mp.get_context('fork')
    todo = list(enumerate(obs))
    running = {}
    res = {}
    limit = LIMIT[tier]
    while todo or running:
        while todo and len(running) < jobs:
            i, ob = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, prog, ob))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        done = []
        for i, (p, a, t0) in running.items():
            if a.poll(0.01):
                try:
                    res[i] = json.loads(a.recv())
                except EOFError:
                    res[i] = dict(verdict='UNDECIDED', why='analysis process ended early', recs=[], stats={})
                p.join()
                done.append(i)
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                res[i] = dict(verdict='UNDECIDED', why='time limit', recs=[], stats={})
                done.append(i)
            if i in res:
                res[i]['wall'] = round(time.time() - t0, 2)
        for i in done:
            running.pop(i)
    return [res[i] for i in range(len(obs))]


def known_findings(prop):
    """lines `finding: property=<id> obligation=<name> :: text`"""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % prop):
                head, _, text = line.strip().partition(' :: ')
                out.append((head.split('obligation=', 1)[1], text))
    return out


def main(argv):
    prop = argv[0]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '--verbose' in argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in LIMIT:
        tier = 'quick'
    t0 = time.time()
    prog = load_program()
    obs = [o for o in obligations(prog) if (prop in o.props or prop == 'ALL') and (only is None or only in o.name)]
    if not obs:
        print('no obligations for', prop)
        return 2
    res = run_all(prog, obs, tier, verbose=verbose)
    bad = []
    kf = known_findings(prop)
    for o, r in zip(obs, res):
        if verbose or r['verdict'] in ('ERROR', 'BROKEN'):
            print('%-10s %6.2fs %s %s' % (r['verdict'], r.get('wall', 0), o.name, r['why'][:1500]))
            for x in r['recs']:
                if r['verdict'] != 'HOLDS':
                    print('      ', x[:1200])
        if r['verdict'] == 'VIOLATED':
            hit = [t for n, t in kf if n == o.name]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
                r['verdict'] = 'KNOWN'
            else:
                bad.append((o, r))
    if prop == 'ALL':
        from collections import Counter
        print(Counter(r['verdict'] for r in res))
        return 1 if bad else 0
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    fns = set()
    for r in res:
        fns.update(q for q in r['stats'].get('functions', []) if q.startswith('sims_pars'))
    undec = [(o, r) for o, r in zip(obs, res) if r['verdict'] not in ('HOLDS', 'VIOLATED', 'KNOWN')]
    cov = dict(
        explanation='Static value-flow comparison: each listed public function of the current source is abstractly '
                    'interpreted (all branches, loops summarised, no execution) and its summary - result, raise '
                    'conditions, written state, effects - is compared with the reference model of the property.',
        obligations=len(obs), discharged=sum(r['verdict'] in ('HOLDS', 'KNOWN') for r in res),
        violated=len(bad), undecided=len(undec),
        functions_analysed=len(fns), statements_interpreted=sum(r['stats'].get('steps', 0) for r in res),
        facts_checked=sum(r['stats'].get('facts', 0) for r in res),
        results=[dict(obligation=o.name, verdict=r['verdict'], why=r['why'][:300], wall_s=r.get('wall'),
                      detail=r['stats'].get('detail')) for o, r in zip(obs, res)],
        functions=sorted(fns)[:400])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              coverage=cov, wall_s=round(time.time() - t0, 2))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o, r in undec:
        print('undecided: %s: %s' % (o.name, r['why'][:200]))
    if any(r['verdict'] in ('ERROR', 'BROKEN') for _, r in undec) and '--strict' in argv:
        return 2
    for n, (o, r) in enumerate(bad):
        p = os.path.join(HERE, 'evidence', 'replay', '%s-%d.txt' % (prop, n))
        with open(p, 'w') as f:
            f.write('property %s\nobligation %s\ntarget %s\n%s\n' % (prop, o.name, o.target, r['why']))
            f.write('\n'.join(r['recs']) + '\n')
        print('%s: %s' % (o.target or o.name, (r['why'] or (r['recs'] or [''])[0])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if bad:
        return 1
    print('%s: %d obligations, %d hold, %d undecided (%.1fs)' % (prop, len(obs), cov['discharged'], len(undec),
                                                              time.time() - t0))
    return 0
