"""Whole networks on symbolic or concrete data."""
import numpy as np

from symx.layers import make_handler, FakeRnd, set_


def make_net(ctx, build, handler=None, params='w'):
    """build() -> some construction layer; the real Network is created, put
    on the right handler and given arbitrary parameters."""
    from brainstorm.structure.network import Network
    net = Network.from_layer(build())
    net.set_handler(handler or make_handler(ctx))
    net.handler.rnd = FakeRnd(ctx)
    if params is not None:
        p = net.buffer.parameters
        set_(p, ctx.arr(params, p.shape))
    return net


def make_data(ctx, spec, T, B, tag=''):
    """spec: name -> feature shape or function(ctx, shape)"""
    out = {}
    for k in sorted(spec):
        v = spec[k]
        if isinstance(v, tuple) and len(v) == 2 and callable(v[1]):
            shape, f = v
            out[k] = f(ctx, (T, B) + tuple(shape))
        else:
            out[k] = ctx.arr('d%s.%s' % (tag, k), (T, B) + tuple(v))
    return out


def layer_views(net, category):
    """every leaf buffer of a category: 'layer.category.name' -> array"""
    out = {}
    for lname, layer in net.layers.items():
        lv = net.buffer[lname]
        if category in lv:
            for k, v in lv[category].items():
                out['%s.%s.%s' % (lname, category, k)] = v
    return out
