"""Two optimisation problems are the same problem: same variables, bounds, rows, special ordered sets and costs, up to a
renaming of variables and rows."""
import random


class Problem:
    """Plain data; the numbers may be symbolic."""

    def __init__(self, lb, ub, types, rows, obj, sos, names):
        self.lb, self.ub, self.types, self.rows, self.obj, self.sos, self.names = lb, ub, types, rows, obj, sos, names

    def numbers(self):
        for v in self.lb:
            yield v
        for v in self.ub:
            yield v
        for coefs, sense, rhs in self.rows:
            for v in coefs.values():
                yield v
            yield rhs
        for v in self.obj.values():
            yield v

    def evaluate(self, f):
        return Problem([f(v) for v in self.lb], [f(v) for v in self.ub], self.types,
                       [({j: f(k) for j, k in c.items()}, s, f(r)) for c, s, r in self.rows],
                       {j: f(k) for j, k in self.obj.items()}, self.sos, self.names)


def of_snapshot(s):
    return Problem(list(s.lb), list(s.ub), list(s.types), [(dict(c), sense, rhs) for c, sense, rhs, name in s.rows],
                   dict(s.obj.coefs), [(tuple(i), tuple(float(x) for x in w), t) for i, w, t in s.sos], list(s.names))


def of_mip(m, sos):
    pos = {v.name: i for i, v in enumerate(m.vars)}
    rows = [({pos[v.name]: k for v, k in c.expr.expr.items()}, c.expr.sense, c.rhs) for c in m.constrs]
    return Problem([v.lb for v in m.vars], [v.ub for v in m.vars], [str(v.var_type) for v in m.vars], rows,
                   {pos[v.name]: k for v, k in m.objective.expr.items()},
                   [(tuple(pos[v.name] for v, w in s), tuple(float(w) for v, w in s), t) for mm, s, t in sos if mm is m], list(pos))


def _r(x):
    x = float(x)
    if abs(x) > 1e19:
        return 'inf' if x > 0 else '-inf'
    return 0.0 if abs(x) < 5e-7 else float('%.7g' % x)


def idle(p):
    """Variables of a numeric problem that no row or set mentions and that only cost: the solver leaves them at zero."""
    used = {j for c, s, r in p.rows for j, k in c.items() if _r(k) != 0} | {j for idx, w, t in p.sos for j in idx}
    return {j for j in range(len(p.lb)) if j not in used and _r(p.lb[j]) == 0 and _r(p.ub[j]) == 'inf' and p.obj.get(j, 0.0) > 1e-6}


def without(p, drop):
    """The problem without these variables, and the place of each remaining one in p."""
    keep = [j for j in range(len(p.lb)) if j not in drop]
    new = {j: i for i, j in enumerate(keep)}
    q = Problem([p.lb[j] for j in keep], [p.ub[j] for j in keep], [p.types[j] for j in keep],
                [({new[j]: k for j, k in c.items() if j in new}, s, r) for c, s, r in p.rows],
                {new[j]: k for j, k in p.obj.items() if j in new}, [(tuple(new[j] for j in i), w, t) for i, w, t in p.sos],
                [p.names[j] for j in keep])
    return q, keep


def match(a, b):
    """As match_all, leaving out idle variables."""
    (qa, ka), (qb, kb) = without(a, idle(a)), without(b, idle(b))
    got = match_all(qa, qb)
    return got and ({kb[j]: ka[i] for j, i in got[0].items()}, got[1])


def match_all(a, b):
    """(variables of b -> of a, rows of b -> of a) for two numeric problems, or None if there is no renaming."""
    if len(a.lb) != len(b.lb) or len(a.rows) != len(b.rows) or len(a.sos) != len(b.sos):
        return None
    table = {}

    def code(x):
        return table.setdefault(x, len(table))

    def start(p):
        return [code(('v', _r(p.lb[j]), _r(p.ub[j]), p.types[j], _r(p.obj.get(j, 0.0)))) for j in range(len(p.lb))]

    def rows_of(p, col):
        return [code(('r', s, _r(r), tuple(sorted((_r(k), col[j]) for j, k in c.items() if _r(k) != 0)))) for c, s, r in p.rows]

    def refine(p, col, rcol):
        acc = [[] for _ in col]
        for (c, s, r), rc in zip(p.rows, rcol):
            for j, k in c.items():
                if _r(k) != 0:
                    acc[j].append((rc, _r(k)))
        for idx, w, t in p.sos:
            order = [i for _, i in sorted(zip(w, idx), key=lambda q: q[0])]
            if t == 1:
                sig = ('s1', tuple(sorted(col[i] for i in order)))
                for i in order:
                    acc[i].append((code(sig), 0))
            else:
                f = tuple(col[i] for i in order)
                sig = code(('s2', min(f, f[::-1])))
                for n, i in enumerate(order):
                    acc[i].append((sig, 1 + min(n, len(order) - 1 - n)))
        return [code(('w', col[j], tuple(sorted(acc[j])))) for j in range(len(col))]

    def stable(ca, cb):
        while True:
            na = len(set(ca))
            ra, rb = rows_of(a, ca), rows_of(b, cb)
            ca, cb = refine(a, ca, ra), refine(b, cb, rb)
            if sorted(ca) != sorted(cb) or sorted(ra) != sorted(rb):
                return None
            if len(set(ca)) == na:
                return ca, cb, rows_of(a, ca), rows_of(b, cb)

    def search(ca, cb, depth=0):
        st = stable(ca, cb)
        if st is None:
            return None
        ca, cb, ra, rb = st
        groups = {}
        for j, c in enumerate(ca):
            groups.setdefault(c, []).append(j)
        big = [g for g in groups.values() if len(g) > 1]
        if not big:
            pos = {c: j for j, c in enumerate(ca)}
            vm = {j: pos[c] for j, c in enumerate(cb)}
            left = {}
            for i, c in enumerate(ra):
                left.setdefault(c, []).append(i)
            rm = {}
            for i, c in enumerate(rb):
                rm[i] = left[c].pop(0)
            return vm, rm
        j = big[0][0]
        for cand in [i for i, c in enumerate(cb) if c == ca[j]]:
            na, nb = list(ca), list(cb)
            na[j] = nb[cand] = code(('pick', depth, ca[j]))
            got = search(na, nb, depth + 1)
            if got:
                return got
        return None
    return search(start(a), start(b))


def generic_point(E, problems):
    """A model of the path condition whose inputs are as unrelated as the path allows."""
    z3, S, p = E.z3, E.sym, E.p
    from .world import consts
    seen = set()
    names = {}
    for pr in problems:
        for v in pr.numbers():
            if isinstance(v, S.Sym):
                for n in consts(z3, v.t, seen=seen):
                    names[n] = None
    rnd = random.Random(7)
    s = p.solver
    s.push()
    try:
        if s.check() != z3.sat:
            raise S.Inconclusive('no point of the path found')
        m = s.model()
        for n in sorted(names):
            x = z3.Real(n)
            for span in (1000, 100, 10, 1, 0.1):
                v = z3.RealVal('%.6f' % (span * (0.2 + 0.8 * rnd.random())))
                done = False
                for t in (x == v, x == -v):
                    s.push()
                    s.add(t)
                    ok = s.check() == z3.sat
                    if ok:
                        m = s.model()
                    s.pop()
                    if ok:
                        s.add(t)
                        done = True
                        break
                if done:
                    break
        return m
    finally:
        s.pop()


def value(E, m):
    from vlib.env import mval

    def f(v):
        return mval(E.z3, m, v.t) if isinstance(v, E.sym.Sym) else float(v)
    return f


def same(E, label, a, b):
    """Goal: problem b is problem a.  Returns the renaming (b -> a)."""
    if not E.symbolic:
        got = match(a, b)
        E.true(label, got is not None, detail='the two problems handed to the solver differ: %s' % difference(a, b))
        return got
    m = generic_point(E, [a, b])
    f = value(E, m)
    na, nb = a.evaluate(f), b.evaluate(f)
    got = match(na, nb)
    if got is None:
        E._counted(label)
        E.p.stats.prove_queries += 1
        raise E.violation(label, 'the two problems handed to the solver differ: %s' % difference(na, nb), m)
    vm, rm = got
    for p, used in ((a, set(vm.values())), (b, set(vm))):
        for j in range(len(p.lb)):
            if j not in used:
                E.ge(label + '-idle-cost', p.obj.get(j, 0.0), 0.0, hyps=False)
                for c, sense, r in p.rows:
                    if j in c:
                        E.close(label + '-idle', c[j], 0.0, hyps=False)

    def eq(x, y):
        sx, sy = E._special(x), E._special(y)
        if sx is not None or sy is not None:
            same_inf = sx is not None and sy is not None and (sx == sy or (sx != sx and sy != sy))
            E.true(label, same_inf)
        else:
            E.close(label, x, y, hyps=False)
    for j, i in vm.items():
        eq(a.lb[i], b.lb[j])
        eq(a.ub[i], b.ub[j])
        eq(a.obj.get(i, 0.0), b.obj.get(j, 0.0))
    for j, i in rm.items():
        ca, cb = a.rows[i][0], {vm[x]: k for x, k in b.rows[j][0].items() if x in vm}
        ca = {x: k for x, k in ca.items() if x in set(vm.values())}
        for x in set(ca) | set(cb):
            eq(ca.get(x, 0.0), cb.get(x, 0.0))
        eq(a.rows[i][2], b.rows[j][2])
    return got


def difference(a, b):
    out = ['%d and %d variables, %d and %d rows, %d and %d ordered sets' % (len(a.lb), len(b.lb), len(a.rows), len(b.rows), len(a.sos), len(b.sos))]

    def bag(p):
        return sorted([('variable', _r(p.lb[j]), _r(p.ub[j]), _r(p.obj.get(j, 0.0))) for j in range(len(p.lb))], key=str), \
            sorted([('row', tuple(sorted(_r(k) for k in c.values())), s, _r(r)) for c, s, r in p.rows], key=str)
    for x, y in zip(bag(a), bag(b)):
        for p in [p for p in x if p not in y][:2]:
            out.append('only in the first: %s' % (p,))
        for p in [p for p in y if p not in x][:2]:
            out.append('only in the second: %s' % (p,))
    return '; '.join(out)
