"""Shapes, element types and batch independence of the layers."""
from ..harness import *
from ..arrays import Arrays, MIX, Poly, atom, const, poly, at, bounds, parse
from . import layers
from .params import last_loc, norm_copy, mentions
from .structures import content

SIZES = {
    'x1': ('N',), 'x2': ('N', 'C'), 'x3': ('N', 'W', 'C'),
    'x4': ('N', 'H', 'W', 'C'),
    'x5': ('N', 'D', 'H', 'W', 'C'), 'xt': ('T', 'N', 'C'),
    'img': ('N', 32, 32, 3), 'y4': ('N', 'C', 'H', 'W'),
    'z4': ('N', 'H', 'W', 8), 'q': ('N', 'T', 'C'), 'k': ('N', 'U', 'C'),
    'v': ('N', 'U', 'C'), 'xt5': (5, 'N', 'C'), 'xs5': ('N', 5, 'C'),
    'w4': ('N', 8, 'H', 'W'), 'u1': ('C',), 'u2': ('W', 'C'),
    'u3': ('H', 'W', 'C'), 'v3': ('C', 'H', 'W'), 'y3': ('N', 'C', 'W'),
    'y5': ('N', 'C', 'D', 'H', 'W'), 'km': (3, 3, 'C', 8), 'em': (10, 4),
    'tm': (3, 3, 8, 3), 's1': ('N', 1), 'im1': ('N', 32, 3),
    'im3': ('N', 4, 5, 6, 3), 'ci4': ('N', 3, 32, 32), 'm1': (3, 'C', 8),
    'm3': (2, 2, 2, 2, 8), 'z3': ('N', 'W', 8), 'z5': ('N', 'D', 'H', 'W', 8),
    'tm1': (3, 8, 'C'), 'tm3': (2, 3, 4, 8, 3), 'g8': (8,),
    'k118': (1, 1, 8), 'k1c8': (1, 'C', 8),
    'kc8': ('C', 8), 'k318': (3, 1, 8), 'k133': (1, 3, 'C', 8),
}


OTHER = ('N', 'W', 'H', 'D', 'T', 'U')  # sizes that may change between calls


def arrays(I):
  """A session in which arrays have shapes, types and batch provenance."""
  names = tuple(SIZES) + ('n0', 'ids', 'i1', 'mask', 'reset', 'x', 'c1')
  setup(I, arrays=names + tuple(n + '_b' for n in names), keys=('rng', 'key2'))
  I.arr = A = Arrays(I)
  for n, s in SIZES.items():
    A.declare(S(n), s, '$D', s.index('N') if 'N' in s else None)
    n, s = n + '_b', tuple(d + '_b' if d in OTHER else d for d in s)
    A.declare(S(n), s, '$D', s.index('N_b') if 'N_b' in s else None)
  A.declare(S('ids'), ('N', 'T'), 'int32', 0)
  A.declare(S('i1'), ('N',), 'int32', 0)
  A.declare(S('ids_b'), ('N_b', 'T_b'), 'int32', 0)
  A.declare(S('mask_b'), ('N_b', 1, 'T_b', 'U_b'), 'bool', 0)
  A.declare(S('c1_b'), ('C',), '$D')
  A.declare(S('c1'), ('C',), '$D')
  A.declare(S('reset'), ('N',), 'bool', 0)
  A.declare(S('reset_b'), ('N_b',), 'bool', 0)
  A.declare(S('mask'), ('N', 1, 'T', 'U'), 'bool', 0)
  for k in ('rng', 'key2'):
    A.declare(S(k), (2,), 'uint32')
  for d in 'NCWHDTU':
    I.dims.add(S(d))
    I.dims.add(S(d + '_b'))
  I.pins.insert(0, A.pin)
  I.pins.append(layers.good_shapes)
  return A


def leaves(I, v):
  """(path, leaf) of an output."""
  out = []

  def go(p, x):
    if x == NONE:
      return
    if isinstance(x, Tup):
      for i, y in enumerate(x.items):
        go(f'{p}[{i}]', y)
    elif isinstance(x, Obj) and isinstance(x.cls, Cls) and \
        x.cls.nt_fields is not None:
      for k in x.cls.nt_fields:
        go(f'{p}.{k}', x.attrs[k])
    elif isinstance(x, Obj) and x.kind in ('dict', 'list') or isinstance(
        x, Obj) and x.items is not None:
      for e in x.items:
        go(f'{p}[{e[1]}]' if e[0] == 'kv' else f'{p}[]',
           e[2] if e[0] == 'kv' else e[1])
    else:
      out.append((p, x))
  go('', v)
  return out


def symbolic(I, A, m, tag):
  """Replaces the values of a params or state mapping by fresh symbols."""
  out, names = {}, []
  for (mod, name), v in content(I, m).items():
    s = S(f'{tag}:{mod}/{name}')
    i = A.of(v)
    I.levels[s] = 0
    if i is not None:
      A.base[s] = i
    out.setdefault(mod, {})[name] = s
    names.append((mod, name, s, i, v))
  return I.mkdict({k: I.mkdict(b) for k, b in out.items()}), names


# ------------------------------------------------------------ layer programs
TRAIN = [True]


def flag():
  return K(TRAIN[0])


def lay(api, *args, on='x2', more=(), kwc=None, **kw):
  """Constructs a layer and calls it."""
  def make(I):
    return hk(I, api, *[a(I) if callable(a) and not isinstance(a, V) else a
                         for a in args], **{
        k: v(I) if callable(v) and not isinstance(v, V) else v
        for k, v in kw.items()})

  def use(I, m, other=''):
    return I.call(m, [S(x + other) if isinstance(x, str) else x() if callable(
        x) and not isinstance(x, V) else x
                      for x in ([on] if isinstance(on, str) else on)] + [
                          x() for x in more], {
                              k: v() if callable(v) and not isinstance(
                                  v, V) else S(v.args[0] + other)
                              if isinstance(v, T) and v.op == 'sym' else v
                              for k, v in (kwc or {}).items()})

  def run(I):
    return use(I, make(I))
  run.make, run.use = make, use
  run.named = lambda n: lay(api, *args, **kw, **{'name': K(n)}).make
  return run


def cell(api, *args, on='x2', state='h', batch='N', reset=False, **kw):
  """A recurrent core applied to a state of the inputs' type."""
  def make(I):
    return hk(I, api, *[a(I) if callable(a) and not isinstance(a, V) else a
                         for a in args], **{
                             k: v(I) if callable(v) and not isinstance(
                                 v, V) else v for k, v in kw.items()})

  def use(I, m, other=''):
    st = I.call(I.getattr(m, 'initial_state'), [
        S('N' + other) if batch else NONE])
    x = S(on + other)
    if reset:
      x = Tup([x, S('reset' + other)])
    return I.call(m, [x, typed(I, st, bool(batch))])

  def run(I):
    return use(I, make(I))
  run.make, run.use = make, use
  run.named = lambda n: cell(api, *args, **kw, **{'name': K(n)}).make
  return run


def typed(I, st, batch=True):
  """The same state in the type of the inputs, one row per example."""
  n = [0]

  def leaf(I, a, k):
    i = I.arr.of(a[0])
    n[0] += 1
    s = S(f'h{n[0]}')
    I.levels[s] = 0
    if i is not None and i.shape is not None:
      I.arr.base[s] = type(i)(i.shape, '$D', at(0) if batch else None)
    return s
  return I.call(Ext('jax.tree_util.tree_map'), [HostFn(leaf), st])


def tree_program(api, *args, ws=('x2', 'k', 'x4'), **kw):
  """A layer applied to a tree of parameters; the leaves of its result."""
  def make(I):
    return hk(I, api, *args, **kw)

  def use(I, m, other=''):
    tree = I.mkdict({K('a/b'): I.mkdict({K('w'): S(ws[0]), K('v'): S(ws[1])}),
                     K('c/~/d'): I.mkdict({K('w'): S(ws[2])})})
    v = content(I, I.call(m, [tree], dict(update_stats=flag())))
    return Tup([v.get(k, NONE) for k in (('a/b', 'w'), ('a/b', 'v'),
                                         ('c/~/d', 'w'))])

  def run(I):
    return use(I, make(I))
  run.make, run.use = make, use
  run.named = lambda n: tree_program(api, *args, ws=ws, **kw, name=K(n)).make
  return run


def core(name, *args, **kw):
  return lambda I: hk(I, name, *args, **kw)


def mods(*fs):
  return lambda I: I.mklist([f(I) for f in fs])


def unroll(api, seq, major=None, n=None):
  def run(I):
    m = hk(I, 'VanillaRNN', K(8))
    st = typed(I, I.call(I.getattr(m, 'initial_state'), [S('N')]))
    kw = {} if major is None else {'time_major': K(major)}
    return hk(I, api, m, S(seq), st, **kw)
  return run


D, F, T_ = K, FALSE, TRUE
NCHW = dict(data_format=K('NCHW'))
EV = [flag]
SAME = 'N, H, W, C'


def twice(I):
  """One Sequential called on what it returned."""
  m = hk(I, 'Sequential', I.mklist([hk(I, 'Linear', S('C'))]))
  return I.call(m, [I.call(m, [S('x2')])])


def ints(*xs):
  return Tup([K(x) for x in xs])


def settings(**kw):
  return lambda I: I.mkdict(kw)


# label, program, {output path: sizes}, options
PROGRAMS = [
    ('Linear', lay('Linear', K(8)), 'N, 8', dict(p={
        'linear/w': 'C, 8', 'linear/b': '8'})),
    ('Linear on 3 axes', lay('Linear', K(8), on='x3'), 'N, W, 8', dict(p={
        'linear/w': 'C, 8', 'linear/b': '8'})),
    ('Linear on 4 axes without bias', lay('Linear', K(8), on='x4',
                                          with_bias=F), 'N, H, W, 8',
     dict(p={'linear/w': 'C, 8'})),
    ('Bias', lay('Bias', on='x4'), SAME, dict(p={'bias/b': 'H, W, C'})),
    ('Bias on the last axis', lay('Bias', on='x4', bias_dims=Tup([K(-1)])),
     SAME, dict(p={'bias/b': 'C'})),
    ('Bias on axis 1', lay('Bias', on='x4', bias_dims=Tup([K(1)])), SAME,
     dict(p={'bias/b': 'H, 1, 1'})),
    ('Bias, one number', lay('Bias', on='x4', bias_dims=Tup([])), SAME,
     dict(p={'bias/b': ''})),
    ('Bias with multiplier', lay('Bias', on='x4', kwc=dict(
        multiplier=K(2.))), SAME, dict(p={'bias/b': 'H, W, C'})),
    ('Sequential', lambda I: I.call(hk(I, 'Sequential', I.mklist([
        hk(I, 'Linear', K(8)), HostFn(lambda I, a, k: a[0]),
        hk(I, 'Linear', K(4))])), [S('x2')]), 'N, 4', dict(p={
            'linear/w': 'C, 8', 'linear/b': '8', 'linear_1/w': '8, 4',
            'linear_1/b': '4'})),
    ('MLP', lay('nets.MLP', Tup([K(8), K(4)])), 'N, 4', dict(p={
        'mlp/~/linear_0/w': 'C, 8', 'mlp/~/linear_0/b': '8',
        'mlp/~/linear_1/w': '8, 4', 'mlp/~/linear_1/b': '4'})),
    ('MLP with dropout', lambda I: I.call(hk(I, 'nets.MLP', Tup(
        [K(8), K(8), K(4)])), [S('x2')], {'dropout_rate': K(.5), 'rng': hk(
            I, 'next_rng_key')}), 'N, 4', {}),
    ('Conv1D', lay('Conv1D', K(8), K(3), on='x3'), 'N, W, 8', dict(p={
        'conv1_d/w': '3, C, 8', 'conv1_d/b': '8'})),
    ('Conv2D', lay('Conv2D', K(8), K(3), on='x4'), 'N, H, W, 8', dict(p={
        'conv2_d/w': '3, 3, C, 8', 'conv2_d/b': '8'})),
    ('Conv2D, oblong kernel', lay('Conv2D', K(8), Tup([K(2), K(5)]), on='x4',
                                  padding=K('VALID')),
     'N, H-1, W-4, 8', dict(p={
         'conv2_d/w': '2, 5, C, 8', 'conv2_d/b': '8'})),
    ('Conv2D with strides', lay('Conv2D', K(8), K(3), stride=Tup(
        [K(2), K(3)]), on='x4'), 'N, (H+1)//2, (W+2)//3, 8', {}),
    ('Conv2D with rate', lay('Conv2D', K(8), K(3), rate=Tup([K(2), K(3)]),
                             padding=K('VALID'), on='x4'),
     'N, H-4, W-6, 8', {}),
    ('Conv2D with pad function', lay('Conv2D', K(8), K(5), padding=lambda
                                     I: pub(I, 'pad.causal'), on='x4'),
     'N, H, W, 8', {}),
    ('Conv2D with pad functions and rate', lay(
        'Conv2D', K(8), Tup([K(3), K(4)]), rate=K(2), padding=lambda I: Tup(
            [pub(I, 'pad.full'), pub(I, 'pad.same')]), on='x4'),
     'N, H+4, W, 8', {}),
    ('Conv2D with pad pairs', lay('Conv2D', K(8), K(3), padding=Tup(
        [Tup([K(1), K(2)]), Tup([K(0), K(5)])]), on='x4'),
     'N, H+1, W+3, 8', {}),
    ('Conv2D with groups', lay('Conv2D', K(8), K(3), feature_group_count=K(4),
                               on='z4'), 'N, H, W, 8', dict(p={
                                   'conv2_d/w': '3, 3, 2, 8',
                                   'conv2_d/b': '8'})),
    ('Conv2D NCHW', lay('Conv2D', K(8), K(3), on='y4', stride=Tup(
        [K(2), K(1)]), **NCHW), 'N, 8, (H+1)//2, W', dict(p={
            'conv2_d/w': '3, 3, C, 8', 'conv2_d/b': '8, 1, 1'})),
    ('Conv3D', lay('Conv3D', K(8), Tup([K(3), K(4), K(5)]), on='x5',
                   padding=K('VALID')),
     'N, D-2, H-3, W-4, 8', dict(p={
         'conv3_d/w': '3, 4, 5, C, 8', 'conv3_d/b': '8'})),
    ('ConvND', lay('ConvND', K(2), K(8), K(3), on='x4'), 'N, H, W, 8', {}),
    ('Conv1DTranspose', lay('Conv1DTranspose', K(8), K(3), stride=K(2),
                            on='x3'), 'N, 2*W, 8', dict(p={
                                'conv1_d_transpose/w': '3, 8, C',
                                'conv1_d_transpose/b': '8'})),
    ('Conv2DTranspose', lay('Conv2DTranspose', K(8), Tup([K(3), K(4)]),
                            stride=Tup([K(1), K(2)]), on='x4'),
     'N, H, 2*W, 8', dict(p={
         'conv2_d_transpose/w': '3, 4, 8, C', 'conv2_d_transpose/b': '8'})),
    ('Conv2DTranspose NCHW', lay(
        'Conv2DTranspose', K(8), Tup([K(3), K(4)]), stride=Tup([K(1), K(2)]),
        on='y4', **NCHW), 'N, 8, H, 2*W', dict(p={
            'conv2_d_transpose/w': '3, 4, 8, C',
            'conv2_d_transpose/b': '8, 1, 1'})),
    ('Conv2DTranspose VALID', lay('Conv2DTranspose', K(8), K(3), stride=K(2),
                                  padding=K('VALID'), on='x4'),
     'N, 2*H+1, 2*W+1, 8', {}),
    ('Conv3DTranspose', lay('Conv3DTranspose', K(8), K(3), stride=K(2),
                            on='x5'), 'N, 2*D, 2*H, 2*W, 8', {}),
    ('DepthwiseConv2D', lay('DepthwiseConv2D', K(2), Tup([K(3), K(4)]),
                            on='x4'), 'N, H, W, 2*C', dict(p={
                                'depthwise_conv2_d/w': '3, 4, 1, 2*C',
                                'depthwise_conv2_d/b': '2*C'})),
    ('DepthwiseConv2D NCHW', lay(
        'DepthwiseConv2D', K(2), K(3), on='y4', stride=K(2), **NCHW),
     'N, 2*C, (H+1)//2, (W+1)//2', dict(p={
         'depthwise_conv2_d/w': '3, 3, 1, 2*C',
         'depthwise_conv2_d/b': '2*C, 1, 1'})),
    ('SeparableDepthwiseConv2D', lay('SeparableDepthwiseConv2D', K(2), Tup(
        [K(3), K(5)]), on='x4', padding=K('VALID')),
     'N, H-2, W-4, 2*C', {}),
    ('LayerNorm', lay('LayerNorm', K(-1), T_, T_, on='x4'), SAME, dict(p={
        'layer_norm/scale': 'C', 'layer_norm/offset': 'C'})),
    ('LayerNorm over several axes', lay('LayerNorm', Tup(
        [K(1), K(2), K(3)]), T_, T_, on='x4'), SAME, {}),
    ('LayerNorm over a slice', lay('LayerNorm', K(slice(1, None)), T_, T_,
                                   on='x4'), SAME, {}),
    ('LayerNorm with scale and offset', lay(
        'LayerNorm', K(-1), F, F, on='x2', kwc=dict(scale=S('c1'),
                                                    offset=S('c1'))),
     'N, C', dict(p={})),
    ('InstanceNorm', lay('InstanceNorm', T_, T_, on='x4'), SAME, dict(p={
        'instance_norm/scale': 'C', 'instance_norm/offset': 'C'})),
    ('InstanceNorm channels first', lay(
        'InstanceNorm', F, F, on='y4', data_format=K('channels_first')),
     'N, C, H, W', {}),
    ('GroupNorm', lay('GroupNorm', K(4), on='z4'), 'N, H, W, 8', dict(p={
        'group_norm/scale': '8', 'group_norm/offset': '8'})),
    ('GroupNorm channels first', lay(
        'GroupNorm', K(4), on='w4', data_format=K('channels_first')),
     'N, 8, H, W', {}),
    ('BatchNorm', lay('BatchNorm', T_, T_, K(.75), on='x4', more=EV), SAME,
     dict(mode=1, p={'batch_norm/scale': '1, 1, 1, C',
                     'batch_norm/offset': '1, 1, 1, C'})),
    ('BatchNorm channels first', lay(
        'BatchNorm', T_, T_, K(.75), on='y4', more=EV,
        data_format=K('channels_first')), 'N, C, H, W',
     dict(mode=1, p={'batch_norm/scale': '1, C, 1, 1',
                     'batch_norm/offset': '1, C, 1, 1'})),
    ('BatchNorm with scale and offset', lay(
        'BatchNorm', F, F, K(.75), on='x2', more=EV, kwc=dict(
            scale=S('c1'), offset=S('c1'))), 'N, C', dict(mode=1, p={})),
    ('BatchNorm across replicas', lay(
        'BatchNorm', T_, F, K(.75), on='x4', more=EV,
        cross_replica_axis=K('i')), SAME, dict(mode=1)),
    ('BatchNorm on given axes', lay(
        'BatchNorm', T_, T_, K(.75), on='x4', more=EV,
        axis=Tup([K(0), K(1)])), SAME,
     dict(mode=1, p={'batch_norm/scale': '1, 1, W, C',
                     'batch_norm/offset': '1, 1, W, C'})),
    ('MaxPool', lay('MaxPool', K(2), K(2), K('SAME'), on='x4'),
     'N, (H+1)//2, (W+1)//2, C', {}),
    ('MaxPool VALID', lay('MaxPool', Tup([K(2), K(3), K(1)]), Tup(
        [K(1), K(2), K(1)]), K('VALID'), on='x4'),
     'N, H-1, (W-3)//2+1, C', {}),
    ('MaxPool channels first', lay('MaxPool', K(2), K(2), K('SAME'), on='y4',
                                   channel_axis=K(1)),
     'N, C, (H+1)//2, (W+1)//2', {}),
    ('AvgPool', lay('AvgPool', K(3), K(2), K('SAME'), on='x4'),
     'N, (H+1)//2, (W+1)//2, C', {}),
    ('AvgPool VALID', lay('AvgPool', K(2), K(1), K('VALID'), on='x4'),
     'N, H-1, W-1, C', {}),
    ('Reshape', lay('Reshape', Tup([K(4), K(-1)]), on='z4'),
     'N, 4, 2*H*W', {}),
    ('Reshape, two axes kept', lay('Reshape', Tup([K(-1)]), on='z4',
                                   preserve_dims=K(2)), 'N, H, 8*W', {}),
    ('Flatten', lay('Flatten', on='x4'), 'N, C*H*W', {}),
    ('Flatten, two axes kept', lay('Flatten', on='x4', preserve_dims=K(2)),
     'N, H, C*W', {}),
    ('BatchApply', lambda I: I.call(hk(I, 'BatchApply', hk(
        I, 'Linear', K(4))), [S('x3')]), 'N, W, 4', {}),
    ('BatchApply of three axes', lambda I: I.call(hk(I, 'BatchApply', hk(
        I, 'Linear', K(4)), K(3)), [S('x4')]), 'N, H, W, 4', {}),
    ('expand_apply', lambda I: I.call(hk(I, 'expand_apply', hk(
        I, 'Linear', K(4))), [S('x2')]), 'N, 4', {}),
    ('dropout', lambda I: hk(I, 'dropout', hk(I, 'next_rng_key'), K(.5),
                             S('x4')), SAME, {}),
    ('Embed', lay('Embed', K(10), K(4), on='ids'), 'N, T, 4', dict(
        dtype='float32', p={'embed/embeddings': '10, 4'})),
    ('Embed one hot', lay('Embed', K(10), K(4), on='ids', lookup_style=K(
        'ONE_HOT')), 'N, T, 4', dict(dtype='float32')),
    ('one_hot', lambda I: hk(I, 'one_hot', S('ids'), K(10)), 'N, T, 10',
     dict(dtype='float32')),
    ('multinomial', lambda I: hk(I, 'multinomial', hk(I, 'next_rng_key'),
                                 S('x2'), K(3)), 'N, 3', dict(dtype='int32')),
    ('MultiHeadAttention', lay('MultiHeadAttention', K(2), K(4), K(1.),
                               on=['q', 'k', 'v']), 'N, T, 8', dict(p={
        'multi_head_attention/query/w': 'C, 8',
        'multi_head_attention/query/b': '8',
        'multi_head_attention/key/w': 'C, 8',
        'multi_head_attention/key/b': '8',
        'multi_head_attention/value/w': 'C, 8',
        'multi_head_attention/value/b': '8',
        'multi_head_attention/linear/w': '8, 8',
        'multi_head_attention/linear/b': '8'})),
    ('MultiHeadAttention with mask and sizes', lay(
        'MultiHeadAttention', K(2), K(4), K(1.), on=['q', 'k', 'v'],
        value_size=K(6), model_size=K(5), kwc=dict(mask=S('mask'))),
     'N, T, 5', dict(p={
        'multi_head_attention/query/w': 'C, 8',
        'multi_head_attention/query/b': '8',
        'multi_head_attention/key/w': 'C, 8',
        'multi_head_attention/key/b': '8',
        'multi_head_attention/value/w': 'C, 12',
        'multi_head_attention/value/b': '12',
        'multi_head_attention/linear/w': '12, 5',
        'multi_head_attention/linear/b': '5'})),
    ('VanillaRNN', cell('VanillaRNN', K(8)), {'[0]': 'N, 8', '[1]': 'N, 8'},
     {}),
    ('LSTM', cell('LSTM', K(8)), {'[0]': 'N, 8', '[1].hidden': 'N, 8',
                                  '[1].cell': 'N, 8'}, dict(p={
                                      'lstm/linear/w': '8 + C, 32',
                                      'lstm/linear/b': '32'})),
    ('GRU', cell('GRU', K(8)), {'[0]': 'N, 8', '[1]': 'N, 8'}, dict(p={
        'gru/w_i': 'C, 24', 'gru/w_h': '8, 24', 'gru/b': '24'})),
    ('Conv2DLSTM', cell('Conv2DLSTM', Tup([S('H'), S('W')]), K(4), K(3),
                        on='x4'), {
                            '[0]': 'N, H, W, 4', '[1].hidden': 'N, H, W, 4',
                            '[1].cell': 'N, H, W, 4'}, {}),
    ('DeepRNN', cell('DeepRNN', mods(core('VanillaRNN', K(8)), core(
        'GRU', K(4)))), {'[0]': 'N, 4', '[1][0]': 'N, 8', '[1][1]': 'N, 4'},
     {}),
    ('deep_rnn_with_skip_connections', cell(
        'deep_rnn_with_skip_connections', mods(
            core('VanillaRNN', K(8)), core('VanillaRNN', K(4)))),
     {'[0]': 'N, 12', '[1][0]': 'N, 8', '[1][1]': 'N, 4'}, {}),
    ('dynamic_unroll', unroll('dynamic_unroll', 'xt'),
     {'[0]': 'T, N, 8', '[1]': 'N, 8'}, {}),
    ('dynamic_unroll, batch first', unroll('dynamic_unroll', 'x3', False),
     {'[0]': 'N, W, 8', '[1]': 'N, 8'}, {}),
    ('static_unroll', unroll('static_unroll', 'xt5'),
     {'[0]': '5, N, 8', '[1]': 'N, 8'}, {}),
    ('static_unroll, batch first', unroll('static_unroll', 'xs5', False),
     {'[0]': 'N, 5, 8', '[1]': 'N, 8'}, {}),
    ('VectorQuantizer', lay('nets.VectorQuantizer', K(8), K(16), K(.25),
                            on='z4', more=EV, dtype=lambda I: T(
                                'dtype', '$D')), {
        "['quantize']": 'N, H, W, 8', "['encoding_indices']": 'N, H, W',
        "['encodings']": 'N*H*W, 16', "['distances']": 'N*H*W, 16',
        "['loss']": '', "['perplexity']": ''}, dict(
            whole=("['loss']", "['perplexity']"), mode=1,
            other={"['encoding_indices']": 'int32'},
            p={'vector_quantizer/embeddings': '8, 16'})),
    ('VectorQuantizerEMA', lay('nets.VectorQuantizerEMA', K(8), K(16), K(.25),
                               K(.75), on='z4', more=EV, dtype=lambda I: T(
                                   'dtype', '$D')), {
        "['quantize']": 'N, H, W, 8', "['encoding_indices']": 'N, H, W',
        "['encodings']": 'N*H*W, 16', "['distances']": 'N*H*W, 16',
        "['loss']": '', "['perplexity']": ''}, dict(
            whole=("['loss']", "['perplexity']"), mode=1,
            other={"['encoding_indices']": 'int32'})),
    ('ExponentialMovingAverage', lay('ExponentialMovingAverage', K(.75),
                                     on='x2'), 'N, C', {}),
    ('ExponentialMovingAverage, not debiased', lay(
        'ExponentialMovingAverage', K(.75), zero_debias=F, on='x2'),
     'N, C', {}),
    ('ExponentialMovingAverage with warm-up', lay(
        'ExponentialMovingAverage', K(.75), zero_debias=F, warmup_length=K(3),
        on='x2'), 'N, C', {}),
    ('SpectralNorm', lay('SpectralNorm', on='x2'), 'N, C', dict(
        whole=('',))),
    ('SpectralNorm of a kernel', lay('SpectralNorm', K(1e-4), K(2), on='x4'),
     SAME, dict(whole=('',))),
    ('Conv1DLSTM', cell('Conv1DLSTM', Tup([S('W')]), K(4), K(3), on='x3'), {
        '[0]': 'N, W, 4', '[1].hidden': 'N, W, 4', '[1].cell': 'N, W, 4'},
     {}),
    ('Conv3DLSTM', cell('Conv3DLSTM', Tup([S('D'), S('H'), S('W')]), K(4),
                        K(3), on='x5'), {
                            '[0]': 'N, D, H, W, 4',
                            '[1].hidden': 'N, D, H, W, 4',
                            '[1].cell': 'N, D, H, W, 4'}, {}),
    ('IdentityCore', lambda I: I.call(hk(I, 'IdentityCore'), [
        S('x2'), Tup([])]), {'[0]': 'N, C'}, {}),
    ('Linear on one example', lay('Linear', K(8), on='u1'), '8', dict(
        one=1, p={'linear/w': 'C, 8', 'linear/b': '8'})),
    ('Conv1D on one example', lay('Conv1D', K(8), K(3), on='u2'), 'W, 8', dict(
        one=1, p={'conv1_d/w': '3, C, 8', 'conv1_d/b': '8'})),
    ('Conv2D on one example', lay('Conv2D', K(8), K(3), on='u3'), 'H, W, 8',
     dict(one=1, p={'conv2_d/w': '3, 3, C, 8', 'conv2_d/b': '8'})),
    ('Conv2D on one example NCHW', lay('Conv2D', K(8), K(3), on='v3', **NCHW),
     '8, H, W', dict(one=1, p={'conv2_d/w': '3, 3, C, 8',
                               'conv2_d/b': '8, 1, 1'})),
    ('Conv2DTranspose on one example', lay('Conv2DTranspose', K(8), K(3), K(2),
                                           on='u3'), '2*H, 2*W, 8', dict(
                                               one=1)),
    ('MaxPool of one example', lay('MaxPool', Tup([K(2), K(2), K(1)]), K(1), K('SAME'), on='u3',
                                   ), 'H, W, C', dict(one=1)),
    ('Linear without bias', lay('Linear', K(8), with_bias=F), 'N, 8',
     dict(p={'linear/w': 'C, 8'})),
    ('MLP, all activated', lay('nets.MLP', Tup([K(8), K(4)]), with_bias=F,
                               activation=Ext('jax.numpy.tanh'),
                               activate_final=T_), 'N, 4', dict(p={
        'mlp/~/linear_0/w': 'C, 8', 'mlp/~/linear_1/w': '8, 4'})),
    ('Conv2D masked', lay('Conv2D', K(8), K(3), on='x4', mask=S('km'),
                          with_bias=F), 'N, H, W, 8', dict(p={
                              'conv2_d/w': '3, 3, C, 8'})),
    ('Conv1D NCW', lay('Conv1D', K(8), K(3), on='y3', stride=K(2), rate=K(1),
                       data_format=K('NCW')), 'N, 8, (W+1)//2', dict(p={
                           'conv1_d/w': '3, C, 8', 'conv1_d/b': '8, 1'})),
    ('Conv1D with rate', lay('Conv1D', K(8), K(3), on='x3', rate=K(2),
                             padding=K('VALID')), 'N, W-4, 8', {}),
    ('Conv3D NCDHW', lay('Conv3D', K(8), K(3), on='y5', stride=Tup(
        [K(1), K(2), K(3)]), data_format=K('NCDHW')),
     'N, 8, D, (H+1)//2, (W+2)//3', dict(p={
         'conv3_d/w': '3, 3, 3, C, 8', 'conv3_d/b': '8, 1, 1, 1'})),
    ('Conv3D with rate', lay('Conv3D', K(8), K(2), on='x5', rate=Tup(
        [K(1), K(2), K(3)]), padding=K('VALID'), with_bias=F),
     'N, D-1, H-2, W-3, 8', {}),
    ('Conv2DTranspose with output shape', lay(
        'Conv2DTranspose', K(8), Tup([K(3), K(4)]), stride=K(2), on='img',
        output_shape=Tup([K(63), K(64)])), 'N, 63, 64, 8', {}),
    ('Conv2DTranspose VALID with output shape', lay(
        'Conv2DTranspose', K(8), K(3), stride=K(2), on='img',
        output_shape=Tup([K(65), K(66)]), padding=K('VALID')),
     'N, 65, 66, 8', {}),
    ('Conv2DTranspose masked', lay('Conv2DTranspose', K(8), K(3), on='img',
                                   mask=S('tm'), with_bias=F),
     'N, 32, 32, 8', {}),
    ('Conv1DTranspose NCW', lay('Conv1DTranspose', K(8), K(3), stride=K(2),
                                on='y3', data_format=K('NCW')),
     'N, 8, 2*W', {}),
    ('Conv3DTranspose NCDHW', lay('Conv3DTranspose', K(8), K(3), stride=Tup(
        [K(1), K(2), K(3)]), on='y5', data_format=K('NCDHW')),
     'N, 8, D, 2*H, 3*W', {}),
    ('DepthwiseConv2D VALID', lay(
        'DepthwiseConv2D', K(3), Tup([K(3), K(4)]), stride=Tup([K(1), K(2)]),
        on='x4', padding=K('VALID'), with_bias=F), 'N, H-2, (W-4)//2+1, 3*C',
     dict(p={'depthwise_conv2_d/w': '3, 4, 1, 3*C'})),
    ('SeparableDepthwiseConv2D NCHW', lay(
        'SeparableDepthwiseConv2D', K(2), Tup([K(3), K(5)]), on='y4',
        stride=K(2), **NCHW), 'N, 2*C, (H+1)//2, (W+1)//2', {}),
    ('Conv1D masked', lay('Conv1D', K(8), K(3), on='x3', mask=S('m1'),
                          with_bias=F), 'N, W, 8', dict(p={
                              'conv1_d/w': '3, C, 8'})),
    ('Conv1D with groups', lay('Conv1D', K(8), K(3), on='z3', stride=K(3),
                               feature_group_count=K(2)), 'N, (W+2)//3, 8',
     dict(p={'conv1_d/w': '3, 4, 8', 'conv1_d/b': '8'})),
    ('Conv3D with groups and mask', lay(
        'Conv3D', K(8), K(2), on='z5', feature_group_count=K(4),
        mask=S('m3')), 'N, D, H, W, 8', dict(p={
            'conv3_d/w': '2, 2, 2, 2, 8', 'conv3_d/b': '8'})),
    ('ConvND with everything', lay(
        'ConvND', K(2), K(8), K(3), K(1), Tup([K(1), K(2)]), K('VALID'), F,
        on='y4', mask=S('km'), data_format=K('NC...')), 'N, 8, H-2, W-4',
     dict(p={'conv_nd/w': '3, 3, C, 8'})),
    ('ConvND of one axis', lay(
        'ConvND', K(1), K(8), K(3), K(2), on='z3', feature_group_count=K(8)),
     'N, (W+1)//2, 8', dict(p={'conv_nd/w': '3, 1, 8', 'conv_nd/b': '8'})),
    ('Conv1DTranspose masked', lay(
        'Conv1DTranspose', K(8), K(3), on='x3', mask=S('tm1'),
        padding=K('VALID'), with_bias=F), 'N, W+2, 8', dict(p={
            'conv1_d_transpose/w': '3, 8, C'})),
    ('Conv1DTranspose with output shape', lay(
        'Conv1DTranspose', K(8), K(5), K(2), K(63), on='im1'), 'N, 63, 8',
     dict(p={'conv1_d_transpose/w': '5, 8, 3', 'conv1_d_transpose/b': '8'})),
    ('Conv2DTranspose with output shape NCHW', lay(
        'Conv2DTranspose', K(8), Tup([K(3), K(4)]), K(2), Tup(
            [K(63), K(64)]), on='ci4', **NCHW), 'N, 8, 63, 64', dict(p={
                'conv2_d_transpose/w': '3, 4, 8, 3',
                'conv2_d_transpose/b': '8, 1, 1'})),
    ('Conv3DTranspose with output shape', lay(
        'Conv3DTranspose', K(8), Tup([K(3), K(3), K(4)]), Tup(
            [K(1), K(2), K(3)]), Tup([K(4), K(9), K(18)]), on='im3'),
     'N, 4, 9, 18, 8', {}),
    ('Conv3DTranspose masked', lay(
        'Conv3DTranspose', K(8), Tup([K(2), K(3), K(4)]), on='im3',
        mask=S('tm3'), with_bias=F, padding=K('VALID')), 'N, 5, 7, 9, 8',
     dict(p={'conv3_d_transpose/w': '2, 3, 4, 8, 3'})),
    ('ConvNDTranspose', lay(
        'ConvNDTranspose', K(2), K(8), K(3), K(2), on='y4',
        data_format=K('channels_first')), 'N, 8, 2*H, 2*W', dict(p={
            'conv_nd_transpose/w': '3, 3, 8, C',
            'conv_nd_transpose/b': '8, 1, 1'})),
    ('ConvNDTranspose of one example', lay(
        'ConvNDTranspose', K(1), K(8), K(3), K(2), with_bias=F, on='u2',
        padding=K('VALID')), '2*W+1, 8', dict(one=1, p={
            'conv_nd_transpose/w': '3, 8, C'})),
    ('SeparableDepthwiseConv2D without bias', lay(
        'SeparableDepthwiseConv2D', K(2), K(3), on='x4', with_bias=F),
     'N, H, W, 2*C', dict(p={
         'separable_depthwise_conv2_d/~/depthwise_conv2_d/w': '3, 1, 1, 2*C',
         'separable_depthwise_conv2_d/~/depthwise_conv2_d_1/w':
             '1, 3, 1, 2*C'})),
    ('GroupNorm with scale and offset', lay(
        'GroupNorm', K(2), create_scale=F, create_offset=F, on='z4', kwc=dict(
            scale=S('g8'), offset=S('g8'))), 'N, H, W, 8', dict(p={})),
    ('EMAParamsTree with warm-up', tree_program(
        'EMAParamsTree', K(.75), zero_debias=F, warmup_length=K(3), ws=(
            'x2', 'c1', 'x4')), {'[0]': 'N, C', '[1]': 'C', '[2]': SAME},
     dict(mode=1, p={}, whole=('[0]', '[1]', '[2]'))),
    ('Bias of rows', lay('Bias', on='x2'), 'N, C', dict(p={'bias/b': 'C'})),
    ('LayerNorm of rows', lay('LayerNorm', K(-1), T_, T_, on='x2'), 'N, C',
     dict(p={'layer_norm/scale': 'C', 'layer_norm/offset': 'C'})),
    ('AvgPool channels first', lay('AvgPool', K(3), K(2), K('SAME'), on='y4',
                                   channel_axis=K(1)),
     'N, C, (H+1)//2, (W+1)//2', {}),
    ('AvgPool of every axis', lay('AvgPool', K(2), K(2), K('VALID'), on='x4',
                                  channel_axis=NONE),
     'N, (H-2)//2+1, (W-2)//2+1, (C-2)//2+1', {}),
    ('max_pool', lambda I: hk(I, 'max_pool', S('x4'), Tup(
        [K(1), K(3), K(2), K(1)]), Tup([K(1), K(1), K(2), K(1)]), K('SAME')),
     'N, H, (W+1)//2, C', {}),
    ('avg_pool', lambda I: hk(I, 'avg_pool', S('x3'), Tup([K(3), K(1)]), Tup(
        [K(2), K(1)]), K('VALID')), 'N, (W-3)//2+1, C', {}),
    ('Bias on two axes', lay('Bias', on='x4', bias_dims=Tup(
        [K(1), K(3)])), SAME, dict(p={'bias/b': 'H, 1, C'})),
    ('Bias with output size', lay('Bias', Tup([S('H'), S('W'), S('C')]),
                                  on='x4'), SAME, dict(p={
                                      'bias/b': 'H, W, C'})),
    ('LayerNorm, other epsilon', lay('LayerNorm', K(1), F, F, K(.125),
                                     on='x4'), SAME, dict(p={})),
    ('LayerNorm, scale only', lay('LayerNorm', K(-1), T_, F, on='x3', kwc=dict(
        offset=S('c1'))), 'N, W, C', dict(p={'layer_norm/scale': 'C'})),
    ('LayerNorm, offset only', lay('LayerNorm', K(-1), F, T_, on='x3'),
     'N, W, C', dict(p={'layer_norm/offset': 'C'})),
    ('InstanceNorm, other epsilon', lay(
        'InstanceNorm', F, T_, K(.125), on='x3'), 'N, W, C', {}),
    ('GroupNorm, other epsilon', lay(
        'GroupNorm', K(2), on='z4', create_scale=F, create_offset=F,
        eps=K(.125)), 'N, H, W, 8', dict(p={})),
    ('GroupNorm over given axes', lay(
        'GroupNorm', K(2), Tup([K(1), K(3)]), on='z4'), 'N, H, W, 8', {}),
    ('GroupNorm over axes from the end', lay(
        'GroupNorm', K(2), Tup([K(-3), K(-1)]), on='z4'), 'N, H, W, 8', {}),
    ('GroupNorm over axes from the end, channels first', lay(
        'GroupNorm', K(4), Tup([K(-3), K(-2)]), on='w4',
        data_format=K('channels_first')), 'N, 8, H, W', {}),
    ('GroupNorm over one axis', lay(
        'GroupNorm', K(4), K(-1), F, on='z4'), 'N, H, W, 8', {}),
    ('GroupNorm over the axes after two', lay(
        'GroupNorm', K(2), K(slice(2, None)),
        on='z4'), 'N, H, W, 8', {}),
    ('BatchNorm on axes from the end', lay(
        'BatchNorm', T_, T_, K(.75), on='x4', more=EV,
        axis=Tup([K(0), K(-2)])), SAME,
     dict(mode=1, p={'batch_norm/scale': '1, H, 1, C',
                     'batch_norm/offset': '1, H, 1, C'})),
    ('BatchNorm, other epsilon', lay(
        'BatchNorm', F, T_, K(.75), K(.125), on='x3', more=EV), 'N, W, C',
     dict(mode=1, p={'batch_norm/offset': '1, 1, C'})),
    ('BatchNorm with local statistics', lay(
        'BatchNorm', T_, F, K(.75), on='x4', more=EV, kwc=dict(
            test_local_stats=T_)), SAME, dict(mode=1, whole=('',))),
    ('ExponentialMovingAverage, not updated', lay(
        'ExponentialMovingAverage', K(.75), on='x2', kwc=dict(
            update_stats=F)), 'N, C', {}),
    ('EMAParamsTree', tree_program('EMAParamsTree', K(.75), ws=(
        'x2', 'c1', 'x4')), {'[0]': 'N, C', '[1]': 'C', '[2]': SAME},
     dict(mode=1, p={}, whole=('[0]', '[1]', '[2]'))),
    ('EMAParamsTree ignoring some', tree_program(
        'EMAParamsTree', K(.75), F, ws=('x2', 'c1', 'x4'),
        ignore_regex=K('a/.*w$')), {'[0]': 'N, C', '[1]': 'C', '[2]': SAME},
     dict(mode=1, p={}, whole=('[0]', '[1]', '[2]'))),
    ('SNParamsTree', tree_program('SNParamsTree', ws=('x2', 'x2', 'x2')),
     {'[0]': 'N, C', '[1]': 'N, C', '[2]': 'N, C'},
     dict(mode=1, p={}, whole=('[0]', '[1]', '[2]'))),
    ('SNParamsTree ignoring some', tree_program(
        'SNParamsTree', K(.125), K(2), K('c/.*w'), ws=('x2', 'x2', 'x4')),
     {'[0]': 'N, C', '[1]': 'N, C', '[2]': SAME},
     dict(mode=1, p={}, whole=('[0]', '[1]', '[2]'))),
    ('SpectralNorm, not updated', lay(
        'SpectralNorm', on='x2', kwc=dict(update_stats=F)), 'N, C',
     dict(whole=('',))),
    ('Embed with a matrix', lay('Embed', embedding_matrix=S('em'), on='ids'),
     'N, T, 4', dict(p={'embed/embeddings': '10, 4'})),
    ('Embed, style given at the call', lay('Embed', K(10), K(4), on='ids', kwc=
                                           dict(lookup_style=K('ONE_HOT'))),
     'N, T, 4', dict(dtype='float32')),
    ('VanillaRNN, one bias', cell('VanillaRNN', K(8), double_bias=F), {
        '[0]': 'N, 8', '[1]': 'N, 8'}, dict(p={
            'vanilla_rnn/linear/w': 'C, 8', 'vanilla_rnn/linear/b': '8',
            'vanilla_rnn/linear_1/w': '8, 8'})),
    ('VanillaRNN on one example', cell('VanillaRNN', K(8), on='u1', batch=''),
     {'[0]': '8', '[1]': '8'}, dict(one=1)),
    ('LSTM on one example', cell('LSTM', K(8), on='u1', batch=''),
     {'[0]': '8', '[1].hidden': '8', '[1].cell': '8'}, dict(one=1)),
    ('GRU on one example', cell('GRU', K(8), on='u1', batch=''),
     {'[0]': '8', '[1]': '8'}, dict(one=1)),
    ('ResetCore', cell('ResetCore', core('LSTM', K(8)), reset=True),
     {'[0]': 'N, 8', '[1].hidden': 'N, 8', '[1].cell': 'N, 8'}, {}),
    ('Conv1DLSTM, two wide', cell('Conv1DLSTM', Tup([S('W')]), K(4), K(2),
                                  on='x3'), {
        '[0]': 'N, W, 4', '[1].hidden': 'N, W, 4', '[1].cell': 'N, W, 4'},
     {}),
    ('dropout of nothing', lambda I: hk(I, 'dropout', hk(I, 'next_rng_key'),
                                        K(0.), S('x4')), SAME, {}),
    ('BatchApply of two arguments', lambda I: I.call(hk(
        I, 'BatchApply', HostFn(lambda I, a, k: I.binop('Add', a[0], a[1]))), [
            S('x3'), S('c1')]), 'N, W, C', {}),
    ('BatchApply with a keyword', lambda I: I.call(hk(
        I, 'BatchApply', HostFn(lambda I, a, k: I.binop(
            'Add', k['x'], a[0]))), [S('c1')], {'x': S('x3')}), 'N, W, C', {}),
    ('Sequential used twice', twice, 'N, C', dict(p={
        'linear/w': 'C, C', 'linear/b': 'C'})),
    ('Sequential with arguments', lambda I: I.call(hk(
        I, 'Sequential', I.mklist([HostFn(lambda I, a, k: I.binop(
            'Add', a[0], k['y'])), HostFn(lambda I, a, k: a[0])])), [
                S('x2')], {'y': S('c1')}), 'N, C', {}),
    ('MLP with dropout, all activated', lambda I: I.call(hk(I, 'nets.MLP', Tup(
        [K(8), K(8), K(4)]), activate_final=T_), [S('x2')], {
            'dropout_rate': K(.5), 'rng': hk(I, 'next_rng_key')}), 'N, 4', {}),
    ('BatchNorm across groups of replicas', lay(
        'BatchNorm', T_, F, K(.75), on='x4', more=EV,
        cross_replica_axis=K('i'), cross_replica_axis_index_groups=Tup([
            ints(0, 2), ints(1, 3)])), SAME, dict(mode=1)),
    ('VectorQuantizerEMA, other epsilon', lay(
        'nets.VectorQuantizerEMA', K(8), K(16), K(.25), K(.75), K(.125),
        on='z4', more=EV, dtype=lambda I: T('dtype', '$D')), {
        "['quantize']": 'N, H, W, 8', "['encoding_indices']": 'N, H, W',
        "['encodings']": 'N*H*W, 16', "['distances']": 'N*H*W, 16',
        "['loss']": '', "['perplexity']": ''}, dict(
            whole=("['loss']", "['perplexity']"), mode=1,
            other={"['encoding_indices']": 'int32'})),
    ('expand_apply at the end', lambda I: I.call(hk(I, 'expand_apply', hk(
        I, 'Linear', K(4)), K(-1)), [S('x2')]), 'N, C', {}),
    ('MultiHeadAttention, own query size', lay(
        'MultiHeadAttention', K(2), K(4), K(1.), query_size=K(4),
        value_size=K(3), on=['q', 'k', 'v']), 'N, T, 8', {}),
    ('VectorQuantizerEMA across replicas', lay(
        'nets.VectorQuantizerEMA', K(8), K(16), K(.5), K(.75),
        on='z4', more=EV, cross_replica_axis=K('i'), dtype=lambda I: T(
            'dtype', '$D')), {
        "['quantize']": 'N, H, W, 8', "['encoding_indices']": 'N, H, W',
        "['encodings']": 'N*H*W, 16', "['distances']": 'N*H*W, 16',
        "['loss']": '', "['perplexity']": ''}, dict(
            whole=("['loss']", "['perplexity']"), mode=1,
            other={"['encoding_indices']": 'int32'})),
    ('ResNet', lay('nets.ResNet', Tup([K(1), K(2), K(1), K(1)]), K(10),
                   on='img', more=EV), 'N, 10', dict(mode=1)),
    ('ResNet v2', lay('nets.ResNet', Tup([K(1), K(1), K(1), K(2)]), K(10),
                      on='img', more=EV, resnet_v2=T_), 'N, 10',
     dict(mode=1)),
    ('ResNet, set up differently', lay(
        'nets.ResNet', ints(1, 1, 2, 1), K(10), settings(
            decay_rate=K(.5), eps=K(.125)), bottleneck=F,
        channels_per_group=ints(64, 8, 8, 12), use_projection=Tup([
            F, T_, T_, T_]), logits_config=settings(
                with_bias=F, name=K('head')), on='img', more=EV), 'N, 10',
     dict(mode=1)),
    ('ResNet v2, set up differently', lay(
        'nets.ResNet', ints(2, 1, 1, 1), K(10), settings(
            decay_rate=K(.5), eps=K(.125)), T_, F, ints(64, 6, 8, 12),
        Tup([F, T_, T_, T_]), on='img', more=EV), 'N, 10', dict(mode=1)),
    ('ResNet, statistics of the batch', lay(
        'nets.ResNet', ints(1, 1, 1, 1), K(10), on='img',
        more=[flag, lambda: T_]), 'N, 10', dict(
            mode=1, whole=('',))),
    ('ResNet v2, statistics of the batch', lay(
        'nets.ResNet', ints(1, 1, 1, 1), K(10), resnet_v2=T_, on='img',
        more=[flag, lambda: T_]), 'N, 10', dict(
            mode=1, whole=('',))),
    ('ResNet18', lay('nets.ResNet18', K(10), on='img', more=EV), 'N, 10',
     dict(mode=1)),
    ('ResNet34', lay('nets.ResNet34', K(10), on='img', more=EV,
                     resnet_v2=T_), 'N, 10', dict(mode=1, slow=1)),
    ('ResNet50', lay('nets.ResNet50', K(10), on='img', more=EV), 'N, 10',
     dict(mode=1, slow=1)),
    ('MobileNetV1, small', lay(
        'nets.MobileNetV1', Tup([K(1), K(2)]), Tup([K(8), K(6)]), K(10), F,
        on='img', more=EV), 'N, 10', dict(mode=1)),
    ('MobileNetV1', lay('nets.MobileNetV1', on='img', more=EV), 'N, 1000',
     dict(mode=1, slow=1)),
]


def run_program(R, I, label, prog, opts, must=False):
  """init (training) and apply (inference); returns outputs with infos."""
  A = arrays(I)
  TRAIN[0] = True
  t = transformed(I, lambda I, a, k: prog(I))
  out = attempt(I, I.getattr(t, 'init'), [S('rng')])
  if not out.ok:
    if must:
      accepts(R, I, label, 'init', out)
    else:
      R.need(None, 'run', label, f'init ends with {out!r}', last_loc(I))
    return None
  A.problems.clear()
  P, pn = symbolic(I, A, out.v.items[0], 'P')
  st, sn = symbolic(I, A, out.v.items[1], 'S')
  for mod, n, s, i, v in pn + sn:
    # stored averages do not belong to an example of this batch
    if i is not None:
      A.base[s] = type(i)(i.shape, i.dtype, None)
  return A, t, P, st, pn, sn


def accepts(R, I, label, what, o):
  """A documented use must not be refused."""
  R.need(None if I.guards or o.exc_name(I) in ('Undecided',) else False,
         'accepted', label, f'{what} ends with {o!r}', last_loc(I))


def parameters(R, I, label, pn, want):
  have = {f'{m}/{n}': i for m, n, s, i, v in pn}
  odd = sorted(set(have) ^ set(want))
  R.need(not odd, 'parameters', label,
         f'has the parameters {sorted(have)}' if len(have) < 40 else
         f'has {len(have)} parameters instead of {len(want)}: '
         f'{odd[:3]}', last_loc(I))
  for k, w in want.items():
    i = have.get(k)
    if i is None or i.shape is None:
      if k in have:
        R.need(None, 'parameter-shape', f'{label} {k}',
               'shape not known', last_loc(I))
      continue
    R.need(i.shape == parse(w), 'parameter-shape', f'{label} {k}',
           f'has shape {list(i.shape)}', last_loc(I))


def deep_parameters(name, blocks, v2):
  """The published residual networks with bottlenecks, as parameter shapes."""
  n, out = name + '/~/', {}

  def norm(k, c):
    out[f'{n}{k}/scale'] = out[f'{n}{k}/offset'] = f'1, 1, 1, {c}'
  out[n + 'initial_conv/w'] = '7, 7, 3, 64'
  if not v2:
    norm('initial_batchnorm', 64)
  last = 64
  for g, (count, c) in enumerate(zip(blocks, (256, 512, 1024, 2048))):
    for b in range(count):
      k = f'block_group_{g}/~/block_{b}/~/'
      if not b:
        out[f'{n}{k}shortcut_conv/w'] = f'1, 1, {last}, {c}'
        if not v2:
          norm(k + 'shortcut_batchnorm', c)
      for i, (s, a, d) in enumerate(((1, last, c // 4), (3, c // 4, c // 4),
                                     (1, c // 4, c))):
        out[f'{n}{k}conv_{i}/w'] = f'{s}, {s}, {a}, {d}'
        norm(f'{k}batchnorm_{i}', a if v2 else d)
      last = c
  if v2:
    norm('final_batchnorm', 2048)
  out[n + 'logits/w'], out[n + 'logits/b'] = '2048, 10', '10'
  return out


DEEP = [('ResNet101', 'res_net101', (3, 4, 23, 3), False),
        ('ResNet152', 'res_net152', (3, 8, 36, 3), True),
        ('ResNet200', 'res_net200', (3, 24, 36, 3), False)]


def rule_deep(R):
  """The deep networks have the blocks they are named after."""
  for api, name, blocks, v2 in DEEP:
    def scen(I, api=api, name=name, blocks=blocks, v2=v2):
      r = run_program(R, I, api, lay(
          'nets.' + api, K(10), resnet_v2=K(v2), on='img',
          more=[lambda: TRUE]), {}, True)
      if r is not None:
        parameters(R, I, api, r[4], deep_parameters(name, blocks, v2))
    R.explore(api, scen)


def rule_shapes(R):
  """Output and parameter shapes; no operation meets sizes that differ."""
  for label, prog, want, opts in PROGRAMS:
    def scen(I, label=label, prog=prog, want=want, opts=opts):
      r = run_program(R, I, label, prog, opts, True)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      if 'p' in opts:
        parameters(R, I, label, pn, opts['p'])
      for train in ((True, False) if opts.get('mode') else (True,)):
        TRAIN[0] = train
        o = attempt(I, I.getattr(t, 'apply'), [P, st, S('rng')])
        c = label + ('' if train else ' in inference')
        if not o.ok:
          accepts(R, I, c, 'apply', o)
          continue
        got = dict(leaves(I, o.v.items[0]))
        exp = want if isinstance(want, dict) else {'': want}
        R.need(set(got) == set(exp), 'outputs', c,
               f'returns {sorted(got)}', last_loc(I))
        for k, w in exp.items():
          i = A.of(got[k]) if k in got else None
          if i is None or i.shape is None:
            R.need(None, 'output-shape', f'{c} {k}',
                   f'not known: {got.get(k)!r}'[:200], last_loc(I))
            continue
          R.need(i.shape == parse(w), 'output-shape', f'{c} {k}',
                 f'has shape {list(i.shape)} for inputs with sizes '
                 'N, C, H, W, D, T', last_loc(I))
        after = content(I, o.v.items[1])
        for mod, n, _, i, v in sn:
          j = after.get((mod, n))
          j = None if j is None else A.of(j)
          R.need(None if None in (i, j) or None in (i.shape, j.shape) else
                 i.shape == j.shape, 'state-shape', f'{c} {mod}/{n}',
                 f'has shape {j} after, {i} before the call', last_loc(I))
        R.need(not A.problems, 'sizes-meet', c, '; '.join(A.problems[:3]),
               last_loc(I))
    R.explore(label, scen)


def rule_batch(R):
  """At inference entry i of the output depends on example i only."""
  for label, prog, want, opts in PROGRAMS:
    if 'one' in opts or set(want if isinstance(want, dict) else ['']) <= set(
        opts.get('whole', ())):
      continue

    def scen(I, label=label, prog=prog, want=want, opts=opts):
      r = run_program(R, I, label, prog, opts)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      TRAIN[0] = False
      o = attempt(I, I.getattr(t, 'apply'), [P, st, S('rng')])
      if not o.ok:
        R.need(None, 'run', label, f'apply ends with {o!r}', last_loc(I))
        return
      for k, x in leaves(I, o.v.items[0]):
        if k in opts.get('whole', ()):
          continue
        i = A.of(x)
        if i is None:
          R.need(None, 'example-wise', f'{label} {k}', f'not known: {x!r}'
                 [:200], last_loc(I))
          continue
        R.need(i.batch is not None and i.batch != MIX, 'example-wise',
               f'{label} {k}', 'an entry of the output depends on other '
               f'examples of the batch ({i!r})' if i.batch == MIX else
               'the output does not depend on the examples', last_loc(I))
    R.explore(label, scen)


def rule_dtype(R):
  """Outputs and parameters have the floating type of the inputs."""
  for label, prog, want, opts in PROGRAMS:
    def scen(I, label=label, prog=prog, want=want, opts=opts):
      r = run_program(R, I, label, prog, opts)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      d = opts.get('dtype', '$D')
      for m, n, s, i, v in pn:
        R.need(None if i is None or i.dtype is None else i.dtype == d,
               'parameter-type', f'{label} {m}/{n}',
               f'has type {i and i.dtype}', last_loc(I))
      for train in ((True, False) if opts.get('mode') else (True,)):
        TRAIN[0] = train
        o = attempt(I, I.getattr(t, 'apply'), [P, st, S('rng')])
        c = label + ('' if train else ' in inference')
        if not o.ok:
          R.need(None, 'run', c, f'apply ends with {o!r}', last_loc(I))
          continue
        after = content(I, o.v.items[1])
        for mod, n, _, i, v in sn:
          j = after.get((mod, n))
          j = None if j is None else A.of(j)
          R.need(None if None in (i, j) or None in (i.dtype, j.dtype) else
                 i.dtype == j.dtype, 'state-type', f'{c} {mod}/{n}',
                 f'has type {j and j.dtype} after, {i and i.dtype} before the '
                 'call', last_loc(I))
        R.need(not A.types, 'types-meet', c, '; '.join(A.types[:3]),
               last_loc(I))
        for k, x in leaves(I, o.v.items[0]):
          if k in opts.get('other', {}):
            continue
          i = A.of(x)
          R.need(None if i is None or i.dtype is None else i.dtype == d,
                 'output-type', f'{c} {k}',
                 f'has type {i and i.dtype} for inputs of type $D',
                 last_loc(I))
    R.explore(label, scen)


# ----------------------------------------------------------- call histories
RANDOM = ('MLP with dropout', 'MLP with dropout, all activated', 'dropout', 'multinomial')


def on(*names, **kw):
  """Calls a layer on named arrays."""
  return lambda I, m: I.call(m, [S(n) if isinstance(n, str) else n
                                 for n in names], kw)


# label, layer, a call, a call on arrays of another rank
RANKS = [
    ('Linear', ('Linear', K(8)), on('x2'), on('x4')),
    ('MLP', ('nets.MLP', ints(8, 4)), on('x3'), on('x2')),
    ('Bias of one axis', ('Bias', NONE, Tup([K(-1)])), on('x2'), on('x3')),
    ('one Bias', ('Bias', NONE, Tup([])), on('x4'), on('x2')),
    ('LayerNorm', ('LayerNorm', K(-1), T_, T_), on('x2'), on('x4')),
    ('LayerNorm over a slice', ('LayerNorm', K(slice(1, None)), F,
                                F), on('x3'), on('x5')),
    ('InstanceNorm', ('InstanceNorm', T_, T_), on('x4'), on('x3')),
    ('BatchNorm', ('BatchNorm', F, F, K(.75)), on('x2', F, T_),
     on('x4', F, T_)),
    ('Conv1D', ('Conv1D', K(8), K(3)), on('x3'), on('u2')),
    ('Conv2D', ('Conv2D', K(8), K(3), K(2)), on('u3'), on('x4')),
    ('Conv2D NCHW', ('Conv2D', K(8), K(3)), on('y4'), on('v3')),
    ('Conv2DTranspose', ('Conv2DTranspose', K(8), K(3), K(2)), on('x4'),
     on('u3')),
    ('Conv1DTranspose', ('Conv1DTranspose', K(8), K(3)), on('u2'), on('x3')),
    ('MaxPool', ('MaxPool', K(2), K(2), K('SAME')), on('x3'), on('x4')),
    ('AvgPool', ('AvgPool', ints(2, 2, 1), ints(1, 1, 1), K('SAME')), on('u3'),
     on('x4')),
    ('Embed', ('Embed', K(10), K(4)), on('ids'), on('i1')),
    ('Embed one hot', ('Embed', K(10), K(4), NONE, NONE, K(
        'ONE_HOT')), on('i1'),
     on('ids')),
    ('Flatten', ('Flatten',), on('x4'), on('x3')),
    ('Reshape of the last axes', ('Reshape', Tup([K(-1)]), K(2)), on('x4'),
     on('x3')),
    ('VectorQuantizer', ('nets.VectorQuantizer', K(8), K(16), K(.25)),
     on('z4', F), on('z3', F)),
]


def rule_history(R):
  """m(x); m(y) is m(x) followed by a fresh m(y) with the same variables."""
  for label, prog, want, opts in PROGRAMS:
    if not hasattr(prog, 'use') or label in RANDOM or label.startswith((
        'ResNet', 'MobileNet')):
      continue
    # an unbound size of the parameters has to be the same in both calls
    second = '_b' if not any(ch in w for w in opts.get('p', {'': 'N'}).values(
        ) for ch in 'NWHDTU') else ''
    R.explore(label, lambda I, label=label, prog=prog, second=second,
              opts=opts: history(
                  R, I, label, prog.make, prog.use, lambda I, m: prog.use(
                      I, m, second), opts.get('mode')))
  for label, (api, *args), one, two in RANKS:
    for x, y, c in ((one, two, ''), (two, one, ', the other way round')):
      c = f'{label} on arrays of two ranks{c}'
      R.explore(c, lambda I, c=c, api=api, args=args, x=x, y=y: history(
          R, I, c, lambda I: hk(I, api, *args), x, y))


def history(R, I, label, make, one, two, mode=False):
  A = arrays(I)
  TRAIN[0] = True
  t1 = transformed(I, lambda I, a, k: one(I, make(I)))
  t2 = transformed(I, lambda I, a, k: two(I, make(I)))

  def both(I, a, k):
    m = make(I)
    x = one(I, m)
    return Tup([x, two(I, m)])
  tb = transformed(I, both)
  out = attempt(I, I.getattr(t1, 'init'), [S('rng')])
  if not out.ok:
    R.need(None, 'run', label, f'init ends with {out!r}', last_loc(I))
    return
  P, _ = symbolic(I, A, out.v.items[0], 'P')
  st, _ = symbolic(I, A, out.v.items[1], 'S')
  for train in ((True, False) if mode else (True,)):
    TRAIN[0] = train
    c = label + ('' if train else ' in inference')
    ap = lambda t, s: attempt(I, I.getattr(t, 'apply'), [P, s, S('rng')])
    a = ap(t1, st)
    b = ap(t2, a.v.items[1]) if a.ok else a
    if not b.ok:
      R.need(None, 'run', c, f'apply ends with {b!r}', last_loc(I))
      continue
    o = ap(tb, st)
    if not o.ok:
      R.need(False, 'second-call', c, f'a second call ends with {o!r}',
             last_loc(I))
      continue
    for what, x, y in (
        ('first', o.v.items[0].items[0], a.v.items[0]),
        ('second', o.v.items[0].items[1], b.v.items[0])):
      x, y = dict(leaves(I, x)), dict(leaves(I, y))
      for k in sorted(set(x) | set(y)):
        u, v = norm_copy(x.get(k)), norm_copy(y.get(k))
        R.need(u == v, 'second-call', f'{c}, {what} result {k}',
               f'is {u!r}'[:300] + f' and for a fresh module {v!r}'[:300],
               last_loc(I))
    x, y = content(I, o.v.items[1]), content(I, b.v.items[1])
    for k in sorted(set(x) | set(y), key=repr):
      u, v = norm_copy(x.get(k)), norm_copy(y.get(k))
      R.need(u == v, 'second-call', f'{c}, state {k}',
             f'is {u!r}'[:300] + f' and for a fresh module {v!r}'[:300],
             last_loc(I))


# ------------------------------------------------------ training / inference
def upd(name, *args, on='x2', **kw):
  """Layers that take update_stats."""
  return lay(name, *args, on=on, kwc=dict(update_stats=flag), **kw)


MODES = [p[:2] + (p[3],) for p in PROGRAMS if p[3].get('mode')
         and p[0] != 'VectorQuantizer'] + [
    ('ExponentialMovingAverage', upd('ExponentialMovingAverage', K(.75)), {}),
    ('ExponentialMovingAverage, not debiased', upd(
        'ExponentialMovingAverage', K(.75), zero_debias=F), {}),
    ('ExponentialMovingAverage with warm-up', upd(
        'ExponentialMovingAverage', K(.75), zero_debias=F, warmup_length=K(3)),
     {}),
    ('SpectralNorm', upd('SpectralNorm'), {}),
    ('SpectralNorm of a kernel', upd('SpectralNorm', K(1e-4), K(2), on='x4'),
     {}),
    ('EMAParamsTree', tree_program('EMAParamsTree', K(.75)), {}),
    ('SNParamsTree', tree_program('SNParamsTree'), {}),
]
LIVE = ('hidden', 'average', 'u0', 'sigma')


def rule_modes(R):
  """Inference changes no statistic; training updates all of them."""
  for label, prog, opts in MODES:
    def scen(I, label=label, prog=prog, opts=opts):
      r = run_program(R, I, label, prog, opts)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      for train in (True, False):
        TRAIN[0] = train
        o = attempt(I, I.getattr(t, 'apply'), [P, st, S('rng')])
        if not o.ok:
          R.need(None, 'run', label, f'apply ends with {o!r}', last_loc(I))
          continue
        after = content(I, o.v.items[1])
        for mod, n, s, i, v in sn:
          u = norm_copy(after.get((mod, n)))
          if not train:
            R.need(u == s, 'inference-keeps', f'{label} {mod}/{n}',
                   f'is {u!r} after a call in inference mode'[:300],
                   last_loc(I))
          elif n in LIVE or 'embeddings' in n:
            R.need(None if u is None else any(
                mentions(u, S(x)) for x in ('x2', 'x3', 'x4', 'k', 'c1', 'z4',
                                            'y4', 'w4', 'x5', 'img')),
                   'training-updates', f'{label} {mod}/{n}',
                   f'is {u!r} after a call in training mode'[:300],
                   last_loc(I))
          elif n == 'counter':
            R.need(mentions(u, s) and u != s, 'training-updates',
                   f'{label} {mod}/{n}', f'is {u!r}'[:300], last_loc(I))
        if not train:
          R.need(set(after) == {(m, n) for m, n, *_ in sn}, 'inference-keeps',
                 label, 'other entries than before: '
                 f'{sorted(map(repr, after))}'[:300], last_loc(I))
    R.explore(label, scen)
