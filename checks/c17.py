"""Right hand sides equal the value of their equation under AEMO's stack rules."""
from .rpn import *

META = dict(
    bounds='stacks of depth 1 to 3, every operator and every pair of operators on values, constants, missing values with a default and '
           'the stack; values and multipliers arbitrary in -10..10 and -4..4; groups of 1 to 3 terms, two levels; every kind of value source',
    outside='terms of type B (not implemented by nempy); missing values without an operator; division by less than 0.1; '
            'longer equations than two operators on a stack of three',
)
OPS = [('v', o) for o in (None, 'PUSH', 'POP') + UNARY + BINARY] + \
      [('c', o) for o in (None, 'PUSH', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG') + BINARY] + \
      [('u', o) for o in (None, 'DUP', 'EXCH', 'RSD', 'RSU', 'POP', 'EXLEZ') + UNARY + BINARY] + \
      [('d', o) for o in ('PUSH', 'STEP') + BINARY]


def num(E, n, lo=-10, hi=10):
    return E.real(n, lo, hi)


def term(E, n, kind, op):
    m = num(E, 'm' + n, -4, 4)
    return Term(kind, op, m, value=num(E, 'v' + n) if kind == 'v' else None, default=num(E, 'd' + n) if kind == 'd' else None)


def flatten(st):
    """Operators that fold the whole stack into one number, so that every element is compared."""
    out, k = [], 3.0
    for i in range(len(st) - 1):
        out += [Term('u', None, k), Term('u', 'ADD', 1.0)]
        k += 2.0
    return out


def check(E, terms, label='rhs-value', more=None):
    f = File(E)
    try:
        st = run(E, terms)
        terms = terms + flatten(st)
        want = run(E, terms)[0]
    except Bad:
        return
    f.equation('CON', terms)
    if more:
        more(f)
    got = f.build().compute_constraint_rhs('CON')
    E.close(label, got, want, tol=1e-3)


def prefix(E, depth):
    return [term(E, '0', 'v', None)] + [term(E, 's%d' % i, 'v', 'PUSH') for i in range(1, depth)]


def single(E, depth):
    k, o = E.pick('op', OPS)
    check(E, prefix(E, depth) + [term(E, '1', k, o)])


def pair(E, first, depth=3):
    k, o = E.pick('op', OPS)
    check(E, prefix(E, depth) + [term(E, '1', *first), term(E, '2', k, o)])


def flags(E, kind):
    """POP sets the flag, EXLEZ acts on it once."""
    mid = E.pick('mid', [('u', 'EXLEZ'), ('v', None), ('u', 'EXCH'), ('u', 'RSU'), ('v', 'POP')])
    check(E, prefix(E, 3) + [term(E, '1', kind, 'POP'), term(E, '2', *mid), term(E, '3', 'u', 'EXLEZ'), term(E, '4', 'u', 'EXLEZ')])


def sources(E):
    """Values come from the right place for each type; several telemetered values add up, bad ones included."""
    f = File(E)
    v = {n: num(E, n, -1000, 1000) for n in ('a1', 'a2', 'a3', 's1', 'i1', 'w1', 'r1', 't1', 'e1', 'mf', 'mt', 'nf', 'nt', 'g1', 'g2')}
    m = {n: num(E, 'k' + n, -4, 4) for n in ('a', 's', 'i', 'w', 'r', 't', 'e', 'm', 'n', 'x', 'c', 'y', 'z')}
    f.scada = {'A': [('ID', v['a1'], True), ('ID', v['a2'], True), ('ID', v['a3'], False)], 'S': [('ID', v['s1'], True)],
               'I': [('ID', v['i1'], True)], 'W': [('ID', v['w1'], False)], 'R': [('ID', v['r1'], True)]}
    f.units = {'ID': v['t1']}
    f.entered = {'ID': v['e1']}
    f.mnsp = {'ID': (v['mf'], v['mt']), 'ID2': (v['nf'], v['nt'])}
    f.generic_equation('GE', [Term('v', None, m['y'], src=('T', 'ID')), Term('c', None, m['z'])])
    f.generic_equation('GE2', [Term('v', None, 1.0, src=('X', 'GE')), Term('v', 'PUSH', 2.0, src=('E', 'ID')), Term('u', 'ADD', 3.0)])
    ge = m['y'] * v['t1'] + m['z']
    want = {'A': m['a'] * (v['a1'] + v['a2'] + v['a3']), 'S': m['s'] * v['s1'], 'I': m['i'] * v['i1'], 'W': m['w'] * v['w1'],
            'R': m['r'] * v['r1'], 'T': m['t'] * v['t1'], 'E': m['e'] * v['e1'], 'M': m['m'] * v['mf'], 'N': m['n'] * v['mt']}
    for k in want:
        f.equation('C_' + k, [Term('v', None, m[k.lower()], src=(k, 'ID'))])
    f.equation('C_X', [Term('v', None, m['x'], src=('X', 'GE')), Term('c', None, m['c'])])
    f.equation('C_XX', [Term('v', None, m['x'], src=('X', 'GE2')), Term('v', None, 1.0, src=('X', 'GE'))])
    f.equation('C_M2', [Term('v', None, 1.0, src=('M', 'ID2')), Term('v', 'SUB', 1.0, src=('N', 'ID2'))])
    want['X'] = m['x'] * ge + m['c']
    want['XX'] = m['x'] * (ge + 2 * v['e1']) * 3 + ge
    want['M2'] = v['nf'] - v['nt']
    nem = num(E, 'nemde', -5000, 5000)
    f.nemde = {'C_A': 1.0, 'C_S': nem}
    c = f.build()
    for k in want:
        E.close('rhs-from-' + k, c.compute_constraint_rhs('C_' + k), want[k], tol=1e-3)
    names = ['C_' + k for k in list(want)[::-1]]
    df = c.compute_constraint_rhs(names)
    E.true('one-row-per-constraint', list(df['set']) == names)
    for n, x in zip(df['set'], df['rhs']):
        E.close('rhs-table', x, want[n[2:]], tol=1e-3)
    for k in want:
        E.close('rhs-again', c.compute_constraint_rhs('C_' + k), want[k], tol=1e-3)
    E.close('nemde-rhs', c.get_nemde_rhs('C_S'), nem)


def groups(E, form, size=2, inner=2):
    """A group is worth the value of its terms, scaled by its group term."""
    m, n = num(E, 'mg', -4, 4), num(E, 'mh', -4, 4)
    before, after = term(E, 'b', 'v', None), term(E, 'a', 'v', None)
    g = [term(E, 'g%d' % i, 'v', None) for i in range(size - 1)] + [term(E, 'gc', 'c', None)]
    h = [term(E, 'h%d' % i, 'v', None) for i in range(inner)]
    val = sum((t.mult * t.value for t in g[:-1]), 0.0) + g[-1].mult
    hval = sum((t.mult * t.value for t in h), 0.0)
    for t in g:
        t.group = '50'
    for t in h:
        t.group = '60'
    G = lambda mult, gid, group=None: Term('g', None, mult, gid=gid, group=group)
    base = before.mult * before.value + after.mult * after.value
    if form == 'trailing':
        eq, want = [before] + g + [G(m, '50'), after], base + m * val
    elif form == 'leading':
        eq, want = [before, G(m, '50')] + g + [after], base + m * val
    elif form == 'bare':
        eq, want = [before] + g + [after], base + val
    elif form == 'bare_last':
        eq, want = [before, after] + g, base + val
    elif form == 'first_trailing':
        eq, want = g + [G(m, '50'), after], m * val + after.mult * after.value
    elif form == 'two_trailing':
        eq, want = [before] + h + [G(n, '60')] + g + [G(m, '50'), after], base + n * hval + m * val
    elif form == 'two_leading':
        eq, want = [before, G(n, '60')] + h + [G(m, '50')] + g + [after], base + n * hval + m * val
    elif form == 'nested_trailing':
        eq, want = [before] + h + [G(n, '60', '50')] + g + [G(m, '50'), after], base + m * (n * hval + val)
    elif form == 'nested_leading':
        eq, want = [before, G(m, '50'), G(n, '60', '50')] + h + g + [after], base + m * (n * hval + val)
    elif form == 'group_operator':
        g2 = [Term('v', None, 1.0, value=g[0].value, group='50'), Term('v', 'MAX', g[0].mult, value=h[0].value, group='50')]
        eq, want = [before] + g2 + [G(m, '50'), after], base + m * (E.Max(g[0].value, h[0].value) * g[0].mult)
    elif form == 'group_pushed':
        g_ = Term('g', 'PUSH', m, gid='50')
        eq, want = [before] + g + [g_, Term('u', 'MIN', 1.0)], E.Min(before.mult * before.value, m * val)
    f = File(E)
    f.equation('CON', eq)
    c = f.build()
    E.close('group-value', c.compute_constraint_rhs('CON'), want, tol=1e-3)
    E.close('group-value-again', c.compute_constraint_rhs('CON'), want, tol=1e-3)


FORMS = ('trailing', 'leading', 'bare', 'bare_last', 'first_trailing', 'two_trailing', 'two_leading', 'nested_trailing', 'nested_leading',
         'group_operator', 'group_pushed')


def cases(tier):
    from vlib.runner import Case
    out = [Case('single_depth%d' % d, single, dict(depth=d)) for d in (1, 2, 3)]
    out += [Case('pair_%s_%s' % (k, o), pair, dict(first=(k, o))) for k, o in OPS]
    out += [Case('flags_' + k, flags, dict(kind=k)) for k in 'uv']
    out += [Case('sources', sources, {})]
    out += [Case('group_' + f, groups, dict(form=f)) for f in FORMS]
    if tier == 'thorough':
        out += [Case('group_%s_%d_%d' % (f, a, b), groups, dict(form=f, size=a, inner=b)) for f in FORMS for a, b in ((1, 1), (3, 1), (3, 3))]
    return out
