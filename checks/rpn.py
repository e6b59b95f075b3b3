"""Reference semantics of AEMO's right hand side equations (Constraint Implementation Guidelines, appendix A), and the equations as
they stand in a case file."""
from .casefile import *

UNARY = ('STEP', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG')
BINARY = ('ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN')


class Term:
    """kind: 'v' a term with a value, 'c' a constant, 'u' acts on the stack, 'd' a term whose value is missing."""

    def __init__(self, kind, op=None, mult=1.0, value=None, default=None, src=None, group=None, gid=None):
        self.kind, self.op, self.mult, self.value, self.default, self.src = kind, op, mult, value, default, src
        self.group, self.gid = group, gid


class Bad(Exception):
    """Not a meaningful equation (stack too short)."""


def unary(E, op, x, m):
    if op == 'STEP':
        return E.If(E.lt(0, x), m, 0.0)
    if op == 'POW2':
        return x * x * m
    if op == 'POW3':
        return x * x * x * m
    if op == 'SQRT':
        E.assume(E.leq(0.0001, x))
        if not E.symbolic and x < 0:
            raise Bad()
        return E.sqrt(x) * m
    if op == 'ABS':
        return E.Max(x, -1 * x) * m
    return -1 * x * m


def binary(E, op, a, b):
    """a: lower (first) operand, b: upper (second)."""
    if op == 'ADD':
        return a + b
    if op == 'SUB':
        return a - b
    if op == 'MUL':
        return a * b
    if op == 'DIV':
        E.assume(E.Or(E.leq(0.1, b), E.leq(b, -0.1)))
        return a / b
    return E.Max(a, b) if op == 'MAX' else E.Min(a, b)


def step(E, st, flag, t):
    """One term: (stack, pop flag) -> (stack, pop flag).  The top of the stack comes first."""
    st, m = list(st), t.mult

    def need(n):
        if len(st) < n:
            raise Bad()
    x = t.value if t.kind == 'v' else t.default if t.kind == 'd' else None
    if t.kind == 'u':
        if t.op is None:
            need(1)
            st[0] = st[0] * m
        elif t.op in UNARY:
            need(1)
            st[0] = unary(E, t.op, st[0], m)
        elif t.op in BINARY:
            need(2)
            st = [binary(E, t.op, st[1], st[0]) * m] + st[2:]
        elif t.op == 'DUP':
            need(1)
            st = [st[0] * m] + st
        elif t.op == 'EXCH':
            need(2)
            st = [st[1] * m, st[0]] + st[2:]
        elif t.op == 'RSD':
            need(2)
            st = [st[-1] * m] + st[:-1]
        elif t.op == 'RSU':
            need(2)
            st = [st[1] * m] + st[2:] + [st[0]]
        elif t.op == 'POP':
            need(2)
            flag = E.leq(st[0], 0.0)
            st = st[1:]
        elif t.op == 'EXLEZ':
            need(2)
            a, b = st[0], st[1]
            st = [E.If(flag, b * m, a), E.If(flag, a, b)] + st[2:]
            flag = False
    elif t.kind == 'c':
        need(1)
        if t.op is None:
            st[0] = st[0] + m
        elif t.op == 'PUSH':
            st = [m] + st
        elif t.op in UNARY:
            st[0] = st[0] + unary(E, t.op, m, 1.0)
        else:
            st[0] = binary(E, t.op, st[0], m)
    else:
        need(1)
        if t.op is None:
            st[0] = st[0] + m * x
        elif t.op == 'PUSH':
            st = [m * x] + st
        elif t.op == 'POP':
            flag = E.leq(x, 0.0)
        elif t.op in UNARY:
            st[0] = st[0] + unary(E, t.op, x, m)
        else:
            st[0] = binary(E, t.op, st[0], x) * m
    return st, flag


def run(E, terms):
    st, flag = [0.0], False
    for t in terms:
        st, flag = step(E, st, flag, t)
    return st


class File:
    """Collects equations and the values they use."""

    def __init__(self, E):
        self.E = E
        self.scada, self.bad, self.units, self.entered, self.mnsp, self.generic, self.cons = {}, {}, {}, {}, {}, {}, {}
        self.n = 0

    def term(self, t):
        E = self.E
        self.n += 1
        d = {'@TermID': str(self.n)}
        if t.gid is not None:
            d['@TermID'] = t.gid
        if t.group is not None:
            d['@GroupTerm'] = t.group
        if t.kind == 'u':
            d.update({'@SpdID': 'NONE', '@SpdType': 'U'})
        elif t.kind == 'g':
            d.update({'@SpdID': 'GROUP', '@SpdType': 'G'})
        elif t.kind == 'c':
            d.update({'@SpdID': 'CONST', '@SpdType': 'C', '@Default': E.leaf(7.5)})
        elif t.kind == 'd':
            d.update({'@SpdID': 'UNKNOWN%d' % self.n, '@SpdType': 'T', '@Default': E.leaf(t.default)})
        else:
            if t.src is None:
                t.src = ('A', 'P%d' % self.n)
                self.scada.setdefault('A', []).append((t.src[1], t.value, True))
            d.update({'@SpdID': t.src[1], '@SpdType': t.src[0]})
        d['@Multiplier'] = E.leaf(t.mult)
        if t.op is not None:
            d['@Operation'] = t.op
        return d

    def equation(self, name, terms):
        self.cons[name] = [self.term(t) for t in terms]

    def generic_equation(self, name, terms):
        self.generic[name] = [self.term(t) for t in terms]

    def build(self):
        from nempy.historical_inputs import rhs_calculator
        E, L = self.E, self.E.leaf
        sc = dict(self.scada)
        sc.setdefault('A', []).append(('OTHER', 3.5, True))
        sc.setdefault('S', []).append(('OTHER', 4.5, True))

        def entry(i, n, v):
            return {'@SpdID': i, '@EMS_ID': 'X%d' % n, '@Value': L(v)}
        scada = []
        for typ in sorted(sc):
            good = [entry(i, n, v) for n, (i, v, ok) in enumerate(sc[typ]) if ok]
            bad = [entry(i, n, v) for n, (i, v, ok) in enumerate(sc[typ]) if not ok]
            d = {'@SpdType': typ, 'ScadaValuesCollection': {'ScadaValues': many(good or [entry('PAD', 99, 0.0)])}}
            if bad:
                d['BadScadaValuesCollection'] = {'ScadaValues': many(bad)}
            scada.append(d)
        traders = []
        for u, v in list(self.units.items()) + [('UX', 1.25), ('UY', 2.25)]:
            traders.append({'@TraderID': u, '@TraderType': 'GENERATOR', 'TraderInitialConditionCollection': {'TraderInitialCondition': [
                {'@InitialConditionID': 'InitialMW', '@Value': L(v)}, {'@InitialConditionID': 'AGCStatus', '@Value': '1'}]}})
        inters = [{'@InterconnectorID': 'REG', '@MNSP': '0', '@FromRegion': 'A', '@ToRegion': 'B'}]
        for i, (f, t) in self.mnsp.items():
            inters.append({'@InterconnectorID': i, '@MNSP': '1', '@FromRegion': 'A', '@ToRegion': 'B', 'MNSPOfferCollection': {
                'MNSPOffer': [{'@RegionID': 'B', '@MaxAvail': L(t)}, {'@RegionID': 'A', '@MaxAvail': L(f)}]}})
        if not self.mnsp:
            inters.append({'@InterconnectorID': 'REG2', '@MNSP': '0', '@FromRegion': 'A', '@ToRegion': 'B'})
        ent = [{'@SpdID': k, '@Value': L(v)} for k, v in list(self.entered.items()) + [('E0', 1.0), ('E1', 2.0)]]
        gen = [{'@EquationID': k, 'RHSTermCollection': {'RHSTerm': many(v)}} for k, v in self.generic.items()]
        gen += [{'@EquationID': 'EMPTY'}, {'@EquationID': 'EMPTY2'}]
        con = [{'@ConstraintID': k, '@Type': 'LE', 'RHSTermCollection': {'RHSTerm': many(v)}} for k, v in self.cons.items()]
        con += [{'@ConstraintID': 'NORHS', '@Type': 'LE'}, {'@ConstraintID': 'NORHS2', '@Type': 'LE'}]
        sol = [{'@ConstraintID': k, '@Intervention': '0', '@RHS': L(v)} for k, v in self.nemde.items()]
        sol += [{'@ConstraintID': k, '@Intervention': '1', '@RHS': '1.0'} for k, v in self.nemde.items()]
        inputs = {'ConstraintScadaDataCollection': {'ConstraintScadaData': scada},
                  'GenericEquationCollection': {'GenericEquation': gen},
                  'GenericConstraintCollection': {'GenericConstraint': con},
                  'TraderCollection': {'Trader': traders},
                  'PeriodCollection': {'Period': {'EnteredValuePeriodCollection': {'EnteredValuePeriod': ent},
                                                  'InterconnectorPeriodCollection': {'InterconnectorPeriod': inters}}}}
        self.manager = manager(E, document(inputs, {'PeriodSolution': {'@Intervention': '0'}, 'ConstraintSolution': sol}))
        return rhs_calculator.RHSCalc(self.manager)

    nemde = {'NORHS': 1.0, 'NORHS2': 2.0}
