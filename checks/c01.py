from .world import *
from .families import *

META = dict(
    bounds='up to 3 regions, 6 units, 10 bands, 3 interconnectors; numbers: volumes 1..2000, demand -5000..5000, flow '
           'limits -1000..1000, marginal loss factors 0.8..1.2, losses -50..200, loss shares 0..1',
    outside='larger markets; regions with demand but no supply variable; non-numeric inputs',
)


def with_demand(build):
    def f(w):
        w.bids()
        build(w)
        demand(w)
    return f


def nothing(w):
    pass


def links(*ls):
    def f(w):
        interconnectors(w, [Link(*a) if not isinstance(a, Link) else Link(a.inter, a.frm, a.to, a.link, a.lfs, a.factor)
                            for a in ls])
    return f


def lossy(ls, points, kind='table', mnsp=False):
    def f(w):
        interconnectors(w, [Link(a.inter, a.frm, a.to, a.link, a.lfs, a.factor) for a in ls], mnsp=mnsp)
        losses(w, points, kind)
    return f


FC = ('energy', 'raise_reg', 'lower_6s')
I = ('I1', 'I1')
SHAPES = {
    'one_region': dict(regions=['A'], units=[G('g1', 'A', bands=2), G('g2', 'A')], build=with_demand(nothing)),
    'mincols': dict(regions=['A'], units=[G('g1', 'A', bands=2), G('g2', 'A')], build=with_demand(nothing),
                    min_columns=True),
    'gen_load_bdu': dict(regions=['A', 'B'], units=[G('g1', 'A', bands=2), G('g2', 'A'), L('l1', 'A'), G('g3', 'B'),
                                                    B('b1', 'B')], build=with_demand(nothing), lf=True),
    'fcas_bids': dict(regions=['A', 'B'], units=[G('g1', 'A', FC), L('l1', 'A', FC), B('b1', 'B', FC),
                                                 G('f1', 'B', ('raise_reg',)), L('f2', 'A', ('lower_6s',)), G('g', 'B')],
                      build=with_demand(nothing)),
    'ten_bands': dict(regions=['A'], units=[G('g1', 'A', bands=10), L('l1', 'A', bands=10)],
                      build=with_demand(nothing)),
    'links': dict(regions=['A', 'B', 'C'], units=[G('g1', 'A'), L('l1', 'B'), G('g2', 'C'), B('b1', 'C')],
                  build=with_demand(links(('I1', 'A', 'B'), ('I2', 'C', 'B'), ('I3', 'A', 'C')))),
    'links_lf': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')],
                     build=with_demand(links(Link('I1', 'A', 'B', lfs=True)))),
    'parallel': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')],
                     build=with_demand(links(('I1', 'A', 'B'), ('I2', 'A', 'B'), ('I3', 'B', 'A')))),
    'mnsp': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')],
                 build=with_demand(links(Link('I1', 'A', 'B', link='p', lfs=True),
                                         Link('I1', 'B', 'A', link='n', lfs=True)))),
    'losses': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')],
                   build=with_demand(lossy([Link('I1', 'A', 'B')], {I: [-100, 0, 120]}))),
    'losses_lf': dict(regions=['A', 'B', 'C'], units=[G('g1', 'A'), G('g2', 'B'), G('g3', 'C')],
                      build=with_demand(lossy([Link('I1', 'B', 'A', lfs=True), Link('I2', 'B', 'C', lfs=True)],
                                              {I: [-100, 120], ('I2', 'I2'): [0, 50]}))),
    'losses_some': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')],
                        build=with_demand(lossy([Link('I1', 'B', 'A', link='x', lfs=True),
                                                 Link('I1', 'A', 'B', link='y', lfs=True)],
                                                {('I1', 'x'): [0, 120], ('I1', 'y'): [0, 50]}, mnsp=True))),
}
for n in ('losses', 'losses_lf', 'losses_some'):
    SHAPES[n].update(modes=('sound',), only=('demand',))
for n in ('one_region', 'gen_load_bdu', 'links', 'losses', 'mnsp'):
    SHAPES[n]['variants'] = ('', 'shuffled', 'reset', 'redispatch')


def cases(tier):
    return cases_from(SHAPES, tier)
