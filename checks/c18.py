"""Updating a value changes exactly the right hand sides that use it."""
from .rpn import *

META = dict(
    bounds='ten kinds of element (four types of telemetry, initial output, entered value, both ends of a market link) sharing one or '
           'different ids; thirteen constraints using them directly, several at once, and through one, two and three levels of generic '
           'equation; any sequence of two updates (thorough: three) with every right hand side queried in between; arbitrary values',
    outside='updates of elements with several telemetered values, of constants and of equations (nempy refuses them; that they change '
            'nothing is checked)',
)
# element -> (type, id)
ELEMENTS = [('A', 'ID'), ('S', 'ID'), ('I', 'ID'), ('W', 'ID'), ('T', 'ID'), ('E', 'ID'), ('M', 'ID'), ('N', 'ID'), ('A', 'ID2'), ('T', 'ID2')]
REFUSED = [('A', 'TWO'), ('R', 'ID'), ('X', 'G1'), ('C', 'CONST')]


def build(E, bare=False):
    f = File(E)
    v = {e: E.real('v%d' % n, -1000, 1000) for n, e in enumerate(ELEMENTS)}
    k = [E.real('k%d' % n, -4, 4) for n in range(6)]
    f.scada = {'A': [('ID', v['A', 'ID'], True), ('ID2', v['A', 'ID2'], True), ('TWO', 2.5, True), ('TWO', 3.0, True)],
               'S': [('ID', v['S', 'ID'], True)], 'I': [('ID', v['I', 'ID'], False)], 'W': [('ID', v['W', 'ID'], True)],
               'R': [('ID', 6.0, True)]}
    f.units = {'ID': v['T', 'ID'], 'ID2': v['T', 'ID2']}
    f.entered = {'ID': v['E', 'ID']}
    f.mnsp = {'ID': (v['M', 'ID'], v['N', 'ID'])}
    t = lambda typ, i, m=1.0, op=None: Term('v', op, m, src=(typ, i))
    # equations: name -> linear form as {element or None: coefficient}; the file holds the same as terms
    gen = {'G3': [(('X', 'G2'), k[0]), (('S', 'ID'), 1.0)], 'G2': [(('X', 'G1'), 2.0), (('W', 'ID'), k[1])],
           'G1': [(('A', 'ID'), k[2]), (('T', 'ID'), 1.0)], 'H': [(('E', 'ID'), 3.0), (None, 4.0)], 'ID': [(('T', 'ID2'), 1.0), (None, 0.5)]}
    con = {'C_' + a + b: [((a, b), k[3])] for a, b in ELEMENTS}
    con.update({'C_G1': [(('X', 'G1'), k[4])], 'C_G3': [(('M', 'ID'), 1.0), (('X', 'G3'), 1.0), (('X', 'G1'), 1.0)], 'C_H': [(('X', 'H'), k[5]), (('E', 'ID'), 1.0)],
                'C_TWICE': [(('A', 'ID2'), 1.0), (('A', 'ID2'), k[4]), (('X', 'ID'), 1.0)], 'C_TWO': [(('A', 'TWO'), 1.0), (('R', 'ID'), 1.0), (None, 2.0)],
                'C_G2': [(None, 1.0), (('X', 'G2'), 1.0)]})
    for name, eq in gen.items():
        f.generic_equation(name, [Term('c', None, m) if e is None else t(e[0], e[1], m) for e, m in eq])
    for name, eq in con.items():
        f.equation(name, [Term('c', None, m) if e is None else t(e[0], e[1], m) for e, m in eq])
    v[('A', 'TWO')], v[('R', 'ID')] = 5.5, 6.0

    def worth(eq):
        return sum((m * (1.0 if e is None else worth(gen[e[1]]) if e[0] == 'X' else v[e]) for e, m in eq), 0.0)

    def uses(eq, el):
        return any(e is not None and (e == el or (e[0] == 'X' and uses(gen[e[1]], el))) for e, m in eq)
    c = f.build()
    return c, v, {n: (lambda n=n: worth(con[n])) for n in con}, lambda el: [n for n in con if uses(con[n], el)]


def ask(E, c, want, label, names=None):
    for n in names or want:
        E.close(label, c.compute_constraint_rhs(n), want[n](), tol=1e-3)


def set_value(E, c, v, el, x):
    c.update_spd_id_value(el[1], el[0], E.leaf(x))
    v[el] = x


def updates(E, first, steps=2, query=True):
    c, v, want, users = build(E)
    if query:
        ask(E, c, want, 'rhs-before')
    set_value(E, c, v, first, E.real('n0', -1000, 1000))
    ask(E, c, want, 'rhs-after-update')
    for s in range(1, steps):
        el = E.pick('el%d' % s, ELEMENTS)
        set_value(E, c, v, el, E.real('n%d' % s, -1000, 1000))
        if s < steps - 1 and query:
            ask(E, c, want, 'rhs-after-updates')
    ask(E, c, want, 'rhs-after-updates')
    E.true('order-of-queries', list(c.compute_constraint_rhs(list(want)[::-1])['set']) == list(want)[::-1])
    ask(E, c, want, 'rhs-after-updates', list(want)[::-1])


def dependents(E):
    c, v, want, users = build(E)
    for el in ELEMENTS + [('A', 'TWO'), ('R', 'ID')]:
        got = list(c.get_rhs_constraint_equations_that_depend_value(el[1], el[0]))
        E.true('dependents-complete', set(users(el)) <= set(got), detail='%s: %s' % (el, sorted(set(users(el)) - set(got))))
        E.true('dependents-only', set(got) <= set(users(el)), detail='%s: %s' % (el, sorted(set(got) - set(users(el)))))
        E.true('dependents-once', len(got) == len(set(got)), detail='%s: %s' % (el, got))
    set_value(E, c, v, ('A', 'ID'), E.real('n', -1000, 1000))
    ask(E, c, want, 'rhs-after-query')


def refused(E):
    """Elements that cannot be updated are refused, and nothing changes."""
    c, v, want, users = build(E)
    ask(E, c, want, 'rhs-before', ['C_G3'])
    el = E.pick('el', REFUSED + [('T', 'NOSUCH'), ('E', 'NOSUCH'), ('M', 'NOSUCH'), ('N', 'NOSUCH'), ('T', 'REG')])
    try:
        c.update_spd_id_value(el[1], el[0], E.leaf(E.real('n', -1000, 1000)))
    except (ValueError, KeyError):
        pass
    else:
        E.true('update-refused', False, detail=str(el))
    ask(E, c, want, 'rhs-after-refusal')


def cases(tier):
    from vlib.runner import Case
    out = [Case('update_%s_%s' % e, updates, dict(first=e)) for e in ELEMENTS]
    out += [Case('unasked_%s_%s' % e, updates, dict(first=e, query=False)) for e in ELEMENTS[:5]]
    out += [Case('dependents', dependents, {}), Case('refused', refused, {})]
    if tier == 'thorough':
        out += [Case('three_%s_%s' % e, updates, dict(first=e, steps=3)) for e in ELEMENTS]
    return out
