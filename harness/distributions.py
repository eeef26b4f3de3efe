"""Distribution parameter classes as containers of the model."""
import LinearResponseVariationalBayes as vb
from common import fl
import gen


def make(cls, name, kw):
    args = {}
    for k, v in kw.items():
        if k in ('min_info', 'min_shape', 'min_rate', 'diag_lb', 'min_df', 'min_alpha'):
            args[k] = fl(v)
        elif k == 'shape':
            args[k] = tuple(v)
        else:
            args[k] = v
    return getattr(vb, cls)(name, **args)


def cfg(cls, **kw):
    """The container a distribution class of the given arguments must be."""
    lb0 = lambda k: [list(kw.get(k, [0, 1]))]
    none = ([], [])
    if cls == 'MVNParam':
        items = [('mean', gen.vector(kw.get('dim', 2), none)),
                 ('info', gen.posdef(kw.get('dim', 2), kw.get('min_info', [0, 1])))]
    elif cls == 'UVNParam':
        items = [('mean', gen.scalar(none)), ('info', gen.scalar((lb0('min_info'), [])))]
    elif cls == 'UVNParamVector':
        n = kw.get('length', 2)
        items = [('mean', gen.vector(n, none)), ('info', gen.vector(n, (lb0('min_info'), [])))]
    elif cls == 'UVNParamArray':
        s = kw.get('shape', [1, 1])
        items = [('mean', gen.array(s, none)), ('info', gen.array(s, (lb0('min_info'), [])))]
    elif cls == 'UVNMomentParamArray':
        s = kw.get('shape', [2, 3])
        items = [('e', gen.array(s, none)), ('e2', gen.array(s, (lb0('min_info'), [])))]
    elif cls == 'MVNArray':
        s = kw.get('shape', [2, 2])
        items = [('mean', gen.array(s, none)), ('info', gen.vector(s[0], (lb0('min_info'), [])))]
    elif cls == 'GammaParam':
        items = [('shape', gen.scalar((lb0('min_shape'), []))),
                 ('rate', gen.scalar((lb0('min_rate'), [])))]
    elif cls == 'WishartParam':
        m = kw.get('size', 2)
        df = kw['min_df'] if kw.get('min_df') else [m - 1, 1]
        items = [('df', gen.scalar(([list(df)], []))),
                 ('v', gen.posdef(m, kw.get('diag_lb', [0, 1])))]
    elif cls == 'DirichletParamArray':
        s = kw.get('shape', [1, 2])
        items = [('alpha', gen.array(s, (lb0('min_alpha'), [])))]
    else:
        raise KeyError(cls)
    d = gen.dct(items)
    d['cls'] = [cls, kw]
    return d


def catalogue(rng, n=0):
    """Every class with its default arguments and with others."""
    q = lambda: rng.choice([[1, 2], [1, 1], [3, 2], [2, 1], [1, 4]])
    out = [cfg(c) for c in ('MVNParam', 'UVNParam', 'UVNParamVector', 'UVNParamArray',
                            'UVNMomentParamArray', 'MVNArray', 'GammaParam', 'WishartParam',
                            'DirichletParamArray')]
    out += [cfg('MVNParam', dim=3, min_info=q()), cfg('MVNParam', dim=1), cfg('UVNParam', min_info=q()),
            cfg('UVNParamVector', length=3, min_info=q()), cfg('UVNParamVector', length=1),
            cfg('UVNParamArray', shape=[2, 3], min_info=q()), cfg('UVNParamArray', shape=[3]),
            cfg('UVNMomentParamArray', shape=[3, 2], min_info=q()),
            cfg('MVNArray', shape=[3, 2], min_info=q()), cfg('MVNArray', shape=[2, 4]),
            cfg('GammaParam', min_shape=q(), min_rate=q()),
            cfg('GammaParam', min_rate=[2, 1]),
            cfg('WishartParam', size=3), cfg('WishartParam', size=3, diag_lb=q()),
            cfg('WishartParam', size=1), cfg('WishartParam', size=2, min_df=[7, 2]),
            cfg('WishartParam', size=3, min_df=[5, 1], diag_lb=q()),
            cfg('WishartParam', size=3, min_df=[5, 2]), cfg('WishartParam', size=2, min_df=[1, 1]),
            cfg('WishartParam', size=2, min_df=[5, 4]),
            cfg('DirichletParamArray', shape=[3, 2], min_alpha=q()),
            cfg('DirichletParamArray', shape=[4]), cfg('DirichletParamArray', shape=[2, 2, 2])]
    return out
