from fractions import Fraction

MAXDEPTH = 14


def show(x, depth=0):
    from vf.core import T, N
    if depth > MAXDEPTH:
        return '…'
    d = depth + 1
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, d) for y in x) + ')'
    if isinstance(x, N):
        if x.a is None:
            return show(x.t, d)
        from vf.core import TRUE, FALSE
        if x.hi is TRUE and x.lo is FALSE:
            return show(x.a, d)
        if x.hi is FALSE and x.lo is TRUE:
            return 'not ' + show(x.a, d)
        if x.hi is TRUE:
            return '(%s or %s)' % (show(x.a, d), show(x.lo, d))
        if x.lo is FALSE:
            return '(%s and %s)' % (show(x.a, d), show(x.hi, d))
        return '(%s if %s else %s)' % (show(x.hi, d), show(x.a, d), show(x.lo, d))
    if not isinstance(x, T):
        return repr(x) if not isinstance(x, Fraction) else str(x)
    op, a = x.op, x.args
    if op == 'c':
        return repr(a[0]) if not isinstance(a[0], Fraction) else str(float(a[0]))
    if op in ('in', 'cls', 'func', 'ext', 'glob'):
        return str(a[0])
    if op == 'var':
        return a[0].split('#')[0] + '_' + a[0].split('#')[1] if '#' in a[0] else a[0]
    if op == 'bv':
        return 'v%d' % a[0]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op in ('get', 'at'):
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'mem':
        return '%s in %s' % (show(a[0], d), show(a[1], d))
    if op == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if op == 'pos':
        return '%s > 0' % show(a[0], d)
    if op == 'isnone':
        return '%s is None' % show(a[0], d)
    if op == 'truthy':
        return 'bool(%s)' % show(a[0], d)
    if op == 'len':
        return 'len(%s)' % show(a[0], d)
    if op == 'ex':
        return 'exists %s: %s' % (show(a[0], d), show(a[1], d))
    if op == 'setv':
        return '{%s | %s}' % (show(a[0], d), show(a[1], d))
    if op == 'dictv':
        return '{%s: %s | %s}' % (show(a[0], d), show(a[2], d), show(a[1], d))
    if op == 'listv':
        return '[' + ', '.join(show(p, d) for p in a[0]) + ']'
    if op == 'one':
        g = '' if show(a[0]) == 'True' else ' if ' + show(a[0], d)
        return show(a[1], d) + g
    if op == 'for':
        return '%s for %s in %s if %s' % (', '.join(show(p, d) for p in a[3]), show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'U':
        return '*'
    if op == 'poly':
        out = []
        for m, c in a:
            s = '*'.join(show(f, d) + ('' if e == 1 else '**%s' % e) for f, e in m)
            if not s:
                s = str(float(c)) if c.denominator != 1 else str(c)
            elif c != 1:
                s = ('-' if c == -1 else str(c) + '*') + s
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'call':
        return '%s(%s)%s' % (show(a[0], d), ', '.join(show(y, d) for y in a[1:-1]),
                             '' if a[-1] == 0 else "'" * (a[-1] if isinstance(a[-1], int) else 1))
    if op == 'instv':
        return '%s<%s>' % (show(a[0], d), ', '.join('%s=%s' % (k, show(v, d)) for k, v in zip(a[1], a[2])))
    return '%s(%s)' % (op, ', '.join(show(y, d) for y in a))


def brief(x, n=260):
    s = show(x)
    return s if len(s) <= n else s[:n] + ' …'
