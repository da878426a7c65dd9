"""Misuse and invalid configurations are refused."""
from ..harness import *
from .initial import call_hk, con
from .numeric import TRAIN, arrays, cell, core, lay, mods
from .params import last_loc

V_ERR = 'ValueError'
T_ERR = 'TypeError'


def lit(*xs):
  return Tup([lit(*x) if isinstance(x, tuple) else K(x) for x in xs])


def fn(name, *args, **kw):
  """A call of a public function."""
  ev = lambda I, v: v(I) if callable(v) and not isinstance(v, V) else v
  return lambda I: call_hk(I, name, *[ev(I, a) for a in args], **{
      k: ev(I, v) for k, v in kw.items()})


def made(name, *args, **kw):
  """A construction."""
  return fn(name, *args, **kw)


def ls(*xs):
  return lambda I: I.mklist([x(I) if callable(x) and not isinstance(
      x, V) else x for x in xs])


def key(I):
  return hk(I, 'next_rng_key')


def grouped(name, *args, **kw):
  return lay(name, *args, **kw)


def avg(I):
  return HostFn(lambda I, a, k: a[0])


BN = dict(on=('x4',), kwc=dict(is_training=TRUE))
NUM = S('n0')    # an array without axes

# label, use, error (None: accepted)
USES = [
    # layers of affine maps
    ('Linear on a number', lay('Linear', K(8), on='n0'), V_ERR),
    ('Linear on a vector', lay('Linear', K(8), on='u1'), None),
    ('Bias on a vector', lay('Bias', on='u1'), V_ERR),
    ('Bias over the batch', lay('Bias', on='x4', bias_dims=lit(0)), V_ERR),
    ('Bias over the batch, counted from the end',
     lay('Bias', on='x4', bias_dims=lit(-4)), V_ERR),
    ('Bias out of range', lay('Bias', on='x4', bias_dims=lit(4)), V_ERR),
    ('Bias on the last axis', lay('Bias', on='x4', bias_dims=lit(3)), None),
    ('Bias of another size', lay('Bias', lit(32, 32, 4), on='img'), V_ERR),
    ('Bias of this size', lay('Bias', lit(32, 32, 3), on='img'), None),
    # convolutions
    ('ConvND in 0 dimensions', lay('ConvND', K(0), K(8), K(3)), V_ERR),
    ('ConvND in -1 dimensions', lay('ConvND', K(-1), K(8), K(3)), V_ERR),
    ('ConvNDTranspose in 0 dimensions', lay('ConvNDTranspose', K(0), K(8),
                                            K(3)), V_ERR),
    ('Conv2D on 2 axes', lay('Conv2D', K(8), K(3), on='x2'), V_ERR),
    ('Conv2D on 5 axes', lay('Conv2D', K(8), K(3), on='x5'), V_ERR),
    ('Conv2D on one example', lay('Conv2D', K(8), K(3), on='x3'), None),
    ('Conv1D on 4 axes', lay('Conv1D', K(8), K(3), on='x4'), V_ERR),
    ('Conv2DTranspose on 2 axes', lay('Conv2DTranspose', K(8), K(3), on='x2'),
     V_ERR),
    ('Conv2DTranspose on 5 axes', lay('Conv2DTranspose', K(8), K(3), on='x5'),
     V_ERR),
    ('Conv2D, 8 channels in 3 groups', lay(
        'Conv2D', K(9), K(3), on='z4', feature_group_count=K(3)), V_ERR),
    ('Conv2D, 8 channels in 4 groups', lay(
        'Conv2D', K(8), K(3), on='z4', feature_group_count=K(4)), None),
    ('Conv2D with a mask of another shape', lay(
        'Conv2D', K(8), K(3), on='x4', mask=S('em')), V_ERR),
    ('Conv2D with a mask', lay('Conv2D', K(8), K(3), on='x4', mask=S('km')),
     None),
    ('Conv2DTranspose with a mask of another shape', lay(
        'Conv2DTranspose', K(8), K(3), on='x4', mask=S('em')), V_ERR),
] + [
    (f'{api} with a mask of shape {m}', lay(api, K(8), K(3), on=x, mask=S(m)),
     V_ERR)
    for api, x, ms in (
        ('Conv1D', 'x3', ('c1', 'k118', 'k1c8', 'kc8', 'k318')),
        ('Conv2D', 'x4', ('kc8', 'm1', 'k318', 'k118', 'k133')),
        ('Conv1DTranspose', 'x3', ('c1', 'k118', 'k1c8', 'kc8')),
        ('Conv2DTranspose', 'x4', ('c1', 'tm1')))
    for m in ms] + [
    ('Conv2D, no such format', lay('Conv2D', K(8), K(3), on='x4',
                                   data_format=K('HWNC')), V_ERR),
    ('Conv2D, no format', lay('Conv2D', K(8), K(3), on='x4',
                              data_format=K('foo')), V_ERR),
    ('Conv2D, 3 strides', lay('Conv2D', K(8), K(3), stride=lit(1, 2, 3),
                              on='x4'), T_ERR),
    ('Conv2D, 3 kernel sizes', lay('Conv2D', K(8), lit(3, 3, 3), on='x4'),
     T_ERR),
    ('Conv2D, 3 rates', lay('Conv2D', K(8), K(3), rate=lit(1, 1, 2),
                            on='x4'), T_ERR),
    ('Conv3D, 2 strides', lay('Conv3D', K(8), K(3), stride=lit(2, 2),
                              on='x5'), T_ERR),
    ('Conv2DTranspose, 3 strides', lay('Conv2DTranspose', K(8), K(3), stride=lit(
        1, 2, 3), on='x4'), T_ERR),
    ('Conv2DTranspose with output_shape and pairs', lay(
        'Conv2DTranspose', K(8), K(3), output_shape=lit(64, 64),
        padding=lit((1, 1), (1, 1)), on='img'), V_ERR),
    ('Conv2DTranspose, output_shape and another padding', lay(
        'Conv2DTranspose', K(8), K(3), output_shape=lit(64, 64), stride=K(2),
        padding=K('FULL'), on='img'), V_ERR),
    ('Conv2DTranspose, impossible output_shape', lay(
        'Conv2DTranspose', K(8), K(3), output_shape=lit(70, 70), stride=K(2),
        on='img'), V_ERR),
    ('Conv2DTranspose, impossible output_shape without padding', lay(
        'Conv2DTranspose', K(8), K(3), output_shape=lit(64, 64), stride=K(2),
        padding=K('VALID'), on='img'), V_ERR),
    ('Conv2DTranspose, possible output_shape', lay(
        'Conv2DTranspose', K(8), K(3), output_shape=lit(63, 64), stride=K(2),
        on='img'), None),
    ('DepthwiseConv2D, no such format', lay(
        'DepthwiseConv2D', K(2), K(3), on='x4', data_format=K('foo')), V_ERR),
    # pooling
    ('max_pool, no such padding', fn('max_pool', S('x4'), K(2), K(2),
                                     K('FULL')), V_ERR),
    ('avg_pool, no such padding', fn('avg_pool', S('x4'), K(2), K(2),
                                     K('FULL')), V_ERR),
    ('max_pool, no such channel axis', fn('max_pool', S('x4'), K(2), K(2),
                                          K('SAME'), K(4)), V_ERR),
    ('avg_pool, no such channel axis', fn('avg_pool', S('x4'), K(2), K(2),
                                          K('SAME'), K(5)), V_ERR),
    ('MaxPool, no such padding', lay('MaxPool', K(2), K(2), K('FULL'),
                                     on='x4'), V_ERR),
    # normalisation
    ('BatchNorm, scale_init without scale', lay(
        'BatchNorm', FALSE, TRUE, K(.9), scale_init=con(1.), **BN), V_ERR),
    ('BatchNorm, offset_init without offset', lay(
        'BatchNorm', TRUE, FALSE, K(.9), offset_init=con(1.), **BN), V_ERR),
    ('BatchNorm, replica groups without an axis', lay(
        'BatchNorm', TRUE, TRUE, K(.9), cross_replica_axis_index_groups=ls(
            ls(K(0))), **BN), V_ERR),
    ('BatchNorm, scale twice', lay(
        'BatchNorm', TRUE, TRUE, K(.9), on=('x4',), kwc=dict(
            is_training=TRUE, scale=S('c1'))), V_ERR),
    ('BatchNorm, offset twice', lay(
        'BatchNorm', TRUE, TRUE, K(.9), on=('x4',), kwc=dict(
            is_training=TRUE, offset=S('c1'))), V_ERR),
    ('BatchNorm, scale at the call', lay(
        'BatchNorm', FALSE, TRUE, K(.9), on=('x4',), kwc=dict(
            is_training=TRUE, scale=S('c1'))), None),
    ('BatchNorm, no such format', lay(
        'BatchNorm', TRUE, TRUE, K(.9), data_format=K('foo'), **BN), V_ERR),
    ('LayerNorm, scale_init without scale', lay(
        'LayerNorm', K(-1), FALSE, TRUE, scale_init=con(1.), on='x4'), V_ERR),
    ('LayerNorm, offset_init without offset', lay(
        'LayerNorm', K(-1), TRUE, FALSE, offset_init=con(1.), on='x4'),
     V_ERR),
    ('LayerNorm, axis by name', lay('LayerNorm', K('C'), TRUE, TRUE, on='x4'),
     V_ERR),
    ('LayerNorm, fractional axis', lay('LayerNorm', K(1.5), TRUE, TRUE,
                                       on='x4'), V_ERR),
    ('LayerNorm, an axis by name', lay('LayerNorm', lit(1, 'C'), TRUE, TRUE,
                                       on='x4'), V_ERR),
    ('LayerNorm, scale twice', lay('LayerNorm', K(-1), TRUE, TRUE, on='x4',
                                   kwc=dict(scale=S('c1'))), V_ERR),
    ('LayerNorm, offset twice', lay('LayerNorm', K(-1), TRUE, TRUE, on='x4',
                                    kwc=dict(offset=S('c1'))), V_ERR),
    ('InstanceNorm, scale twice', lay('InstanceNorm', TRUE, TRUE, on='x4',
                                      kwc=dict(scale=S('c1'))), V_ERR),
    ('InstanceNorm, scale_init without scale', lay(
        'InstanceNorm', FALSE, TRUE, scale_init=con(1.), on='x4'), V_ERR),
    ('GroupNorm, scale_init without scale', lay(
        'GroupNorm', K(4), create_scale=FALSE, scale_init=con(1.), on='z4'),
     V_ERR),
    ('GroupNorm, offset_init without offset', lay(
        'GroupNorm', K(4), create_offset=FALSE, offset_init=con(1.),
        on='z4'), V_ERR),
    ('GroupNorm, axis by name', lay('GroupNorm', K(4), K('C'), on='z4'),
     V_ERR),
    ('GroupNorm, 8 channels in 3 groups', lay('GroupNorm', K(3), on='z4'),
     V_ERR),
    ('GroupNorm, 8 channels in 8 groups', lay('GroupNorm', K(8), on='z4'),
     None),
    ('GroupNorm, scale twice', lay('GroupNorm', K(4), on='z4', kwc=dict(
        scale=S('c1'))), V_ERR),
    ('GroupNorm, offset twice', lay('GroupNorm', K(4), on='z4', kwc=dict(
        offset=S('c1'))), V_ERR),
    ('GroupNorm, no such format', lay('GroupNorm', K(4), data_format=K('foo'),
                                      on='z4'), V_ERR),
    ('SpectralNorm of a vector', lay('SpectralNorm', on='x1'), V_ERR),
    ('SpectralNorm of a number', lay('SpectralNorm', on='n0'), V_ERR),
    ('SpectralNorm of 4 axes', lay('SpectralNorm', on='x4', kwc=dict(
        error_on_non_matrix=TRUE)), V_ERR),
    ('SpectralNorm of 3 axes', lay('SpectralNorm', on='x3', kwc=dict(
        error_on_non_matrix=TRUE)), V_ERR),
    ('SpectralNorm of a matrix', lay('SpectralNorm', on='x2', kwc=dict(
        error_on_non_matrix=TRUE)), None),
    ('ExponentialMovingAverage, warm-up of -1', lay(
        'ExponentialMovingAverage', K(.9), zero_debias=FALSE, warmup_length=K(
            -1)), V_ERR),
    ('ExponentialMovingAverage, warm-up and debiasing', lay(
        'ExponentialMovingAverage', K(.9), warmup_length=K(3)), V_ERR),
    # embedding
    ('Embed of nothing', lay('Embed', on='ids'), V_ERR),
    ('Embed without vocab_size', lay('Embed', embed_dim=K(4), on='ids'),
     V_ERR),
    ('Embed without embed_dim', lay('Embed', K(10), on='ids'), V_ERR),
    ('Embed, another vocab_size', lay('Embed', K(4), embedding_matrix=S('em'),
                                      on='ids'), V_ERR),
    ('Embed, another embed_dim', lay('Embed', embed_dim=K(10),
                                     embedding_matrix=S('em'), on='ids'),
     V_ERR),
    ('Embed, matrix and sizes', lay('Embed', K(10), K(4), embedding_matrix=S(
        'em'), on='ids'), None),
    ('Embed of numbers', lay('Embed', K(10), K(4), on='x2'), V_ERR),
    ('Embed of booleans', lay('Embed', K(10), K(4), on='mask'), V_ERR),
    ('Embed, no such style', lay('Embed', K(10), K(4), on='ids',
                                 lookup_style=K('FOO')),
     ('KeyError', 'AttributeError', 'NotImplementedError')),
    # recurrence
    ('LSTM on 3 axes', lay('LSTM', K(8), on='x3', more=(lambda: Tup(
        [S('x3'), S('x3')]),)), V_ERR),
    ('LSTM on a number', lay('LSTM', K(8), on='n0', more=(lambda: Tup(
        [S('x3'), S('x3')]),)), V_ERR),
    ('GRU on 3 axes', lay('GRU', K(8), on='x3', more=(lambda: S('x3'),)),
     V_ERR),
    ('GRU on a number', lay('GRU', K(8), on='n0', more=(lambda: S('x3'),)),
     V_ERR),
    ('skip connections around a function', fn(
        'deep_rnn_with_skip_connections', mods(core('LSTM', K(8)),
                                               avg)), V_ERR),
    # shapes
    ('Reshape, 0 preserved', lay('Reshape', lit(-1), K(0)), V_ERR),
    ('Reshape, -1 preserved', lay('Reshape', lit(-1), K(-1)), V_ERR),
    ('Reshape, 2 sizes inferred', lay('Reshape', lit(-1, 2, -1), on='z4'),
     V_ERR),
    ('Reshape, 1 size inferred', lay('Reshape', lit(-1, 2), on='z4'), None),
    ('BatchApply of 1 axis', lambda I: I.call(hk(I, 'BatchApply', avg(I)), [
        S('x1')]), V_ERR),
    ('BatchApply over 3 axes of 2', lambda I: I.call(hk(
        I, 'BatchApply', avg(I), K(3)), [S('x2')]), V_ERR),
    ('BatchApply of 2 axes', lambda I: I.call(hk(I, 'BatchApply', avg(I)), [
        S('x2')]), None),
    ('expand_apply on axis 1', lambda I: I.call(hk(
        I, 'expand_apply', avg(I), K(1)), [S('x2')]), V_ERR),
    ('expand_apply on axis -2', lambda I: I.call(hk(
        I, 'expand_apply', avg(I), K(-2)), [S('x2')]), V_ERR),
    ('expand_apply on axis -1', lambda I: I.call(hk(
        I, 'expand_apply', avg(I), K(-1)), [S('x2')]), None),
    # random numbers
    ('dropout of everything', fn('dropout', key, K(1.), S('x2')), V_ERR),
    ('dropout of more', fn('dropout', key, K(1.5), S('x2')), V_ERR),
    ('dropout of less than nothing', fn('dropout', key, K(-.125), S('x2')),
     V_ERR),
    ('dropout of most', fn('dropout', key, K(.9921875), S('x2')), None),
    ('multinomial of 3 axes', fn('multinomial', key, S('x3'), K(5)), V_ERR),
    ('multinomial of a number', fn('multinomial', key, S('n0'), K(5)), V_ERR),
    # initializers
    ('VarianceScaling(-1)', made('initializers.VarianceScaling', K(-1.)),
     V_ERR),
    ('VarianceScaling, no such mode', made(
        'initializers.VarianceScaling', K(1.), K('fan')), V_ERR),
    ('VarianceScaling, no such distribution', made(
        'initializers.VarianceScaling', K(1.), K('fan_in'), K('cauchy')),
     V_ERR),
    ('VarianceScaling, capital letters', made(
        'initializers.VarianceScaling', K(1.), K('fan_in'), K('Uniform')),
     None),
    ('Orthogonal vector', fn('get_parameter', K('w'), lit(3), init=lambda I: hk(
        I, 'initializers.Orthogonal')), V_ERR),
    ('Identity vector', fn('get_parameter', K('w'), lit(3), init=lambda I: hk(
        I, 'initializers.Identity')), V_ERR),
    # networks
    ('MLP, b_init without bias', lay('nets.MLP', lit(8, 4), with_bias=FALSE,
                                     b_init=con(1.)), V_ERR),
    ('MLP, dropout without key', lay('nets.MLP', lit(8, 4), kwc=dict(
        dropout_rate=K(.5))), V_ERR),
    ('MLP, key without dropout', lay('nets.MLP', lit(8, 4), kwc=dict(
        rng=S('key2'))), V_ERR),
    ('MobileNetV1, strides and channels', made(
        'nets.MobileNetV1', lit(1, 2, 1), lit(8, 8), K(10)), V_ERR),
    ('ResNet, 3 groups', made('nets.ResNet', lit(1, 1, 1), K(10)), V_ERR),
    ('ResNet, 5 channel counts', made(
        'nets.ResNet', lit(1, 1, 1, 1), K(10), channels_per_group=lit(
            8, 8, 8, 8, 8)), V_ERR),
    ('ResNet, 4 groups', made('nets.ResNet', lit(1, 1, 1, 1), K(10)), None),
    ('VectorQuantizerEMA, decay of 1.5', made(
        'nets.VectorQuantizerEMA', K(8), K(16), K(.25), K(1.5)), V_ERR),
    ('VectorQuantizerEMA, decay of -1', made(
        'nets.VectorQuantizerEMA', K(8), K(16), K(.25), K(-1.)), V_ERR),
    ('tabulate, no such column', fn('experimental.tabulate', avg, columns=lit(
        'module', 'colour')), V_ERR),
    ('tabulate, no such filter', fn('experimental.tabulate', avg, filters=lit(
        'has_params', 'has_colour')), V_ERR),
    ('tabulate, columns and filters', fn('experimental.tabulate', avg, columns=
                                         lit('module', 'config'), filters=lit(
                                             'has_params', 'has_output')),
     None),
    ('to_module named by a number', lambda I: I.call(call_hk(
        I, 'to_module', avg(I)), [K(3)]), T_ERR),
    ('VectorQuantizerEMA, decay of 1', made(
        'nets.VectorQuantizerEMA', K(8), K(16), K(.25), K(1.)), None),
]


def rule_refusals(R):
  """Documented misuse raises the documented error, its neighbour does not."""
  for label, use, err in USES:
    def scen(I, label=label, use=use, err=err):
      A = arrays(I)
      A.declare(S('n0'), (), '$D')
      TRAIN[0] = True
      t = transformed(I, lambda I, a, k: use(I))
      o = attempt(I, I.getattr(t, 'init'), [S('rng')])
      judge(R, I, label, o, err)
    R.explore(label, scen)


def judge(R, I, label, o, err):
  if err is None:
    R.need(True if o.ok else None if I.guards or o.exc_name(I) ==
           'Undecided' else False, 'accepted', label, f'ends with {o!r}',
           last_loc(I))
    return
  if o.ok:
    R.need(None if I.guards else False, 'refused', label, 'is accepted',
           last_loc(I))
    return
  names = err if isinstance(err, tuple) else (err,)
  name = o.exc_name(I)
  R.need(None if name == 'Undecided' else True if err == 'any' or
         name.rpartition('.')[2] in names else None if I.guards else False,
         'refused', label, f'ends with {o!r}', last_loc(I))
