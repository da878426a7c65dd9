"""Client programs that run each layer and network of the library."""
from ..harness import *


def raw_init(I, cls):
  """The constructor as written, without the wrapping of the metaclass."""
  for c in cls.mro():
    if isinstance(c, Cls):
      r = c.attrs.get('__sa_raw__')
      if r is not None and '__init__' in r.extra:
        f = r.extra['__init__']
        return f if isinstance(f, Fn) else None
  return None


def dims(*names):
  return Tup([S(n) if isinstance(n, str) else K(n) for n in names])


SHAPES = {
    'x2': ('N', 'C'), 'x3': ('N', 'W', 'C'), 'x4': ('N', 'H', 'W', 'C'),
    'x5': ('N', 'D', 'H', 'W', 'C'), 'xt': ('T', 'N', 'C'),
    'img': ('N', 'H', 'W', 3),
}


def jaxy(t):
  """The result of a numerical function is an array."""
  if not isinstance(t, T):
    return False
  if t.op == 'binop':
    return jaxy(t.args[1]) or jaxy(t.args[2])
  if t.op == 'call':
    return isinstance(t.args[0], Ext) and t.args[0].name.startswith(
        ('jax.numpy.', 'jax.lax.', 'jax.nn.'))
  if t.op in ('mcall', 'unop', 'getitem', 'elem'):
    return any(jaxy(a) for a in t.args[:2])
  return False


def good_shapes(I, t):
  """Initializers return what they are asked for; ranks are as declared."""
  if t.op == 'truthy' and isinstance(t.args[0], T) and \
      t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
    return True
  if t.op == 'isnone' and isinstance(t.args[0], T):
    a = t.args[0]
    if a.op == 'attr' and a.args[1] in ('shape', 'dtype') or \
        a.op in ('binop', 'call', 'callm') and jaxy(a):
      return False
  if t.op == 'isinstance' and jaxy(t.args[0]) and \
      t.args[1] == Ext('jax.numpy.ndarray'):
    return True
  if t.op == 'eq' and any(
      isinstance(a, T) and a.op == 'binop' and a.args[0] == 'Mod'
      for a in t.args) and K(0) in t.args:
    return True  # the sizes divide as required
  if t.op == 'is':
    for a, b in (t.args, t.args[::-1]):
      if isinstance(b, T) and b.op == 'typeof' and jaxy(b.args[0]) and \
          not isinstance(a, T):
        return False
  if t.op == 'eq':
    for a, b in (t.args, t.args[::-1]):
      if isinstance(a, T) and a.op == 'attr' and a.args[1] == 'shape' and \
          isinstance(b, (Tup, T)) and a.args[0] not in I.shapes:
        return True
  return None


def prepare(I, **kw):
  arrays = tuple(SHAPES) + ('x', 'ids', 'mask', 'h0', 'c0', 'q', 'k', 'v',
                            'rate', 'scale', 'offset')
  setup(I, arrays=arrays + tuple(kw.get('arrays', ())),
        keys=('rng', 'key2'), optional=kw.get('optional', ()))
  I.shapes = {S(k): dims(*v) for k, v in SHAPES.items()}
  I._ranks = {}
  I.pins.append(good_shapes)
  for v in SHAPES.values():
    for d in v:
      if isinstance(d, str):
        I.dims.add(S(d))


def mod(name, *args, **kw):
  """Construct a layer and call it."""
  def run(I, call=None):
    m = hk(I, name, *args, **{k: v(I) if callable(v) and not isinstance(
        v, V) else v for k, v in kw.items() if not k.startswith('_')})
    return I.call(m, list(kw.get('_in', [S('x2')])), dict(kw.get('_kw', {})))
  return run


def fn(name, *args, **kw):
  return lambda I: hk(I, name, *[a(I) if callable(a) and not isinstance(
      a, V) else a for a in args], **kw)


def core(name, *args, state=None, **kw):
  def run(I):
    m = hk(I, name, *args, **kw)
    st = I.call(I.getattr(m, 'initial_state'), [S('N')]) if state is None \
        else state
    return I.call(m, [S('x2'), st])
  return run


def L(I, *xs):
  return I.mklist(list(xs))


LAYERS = [
    ('Linear', mod('Linear', K(8))),
    ('Linear no bias', mod('Linear', K(8), with_bias=FALSE)),
    ('Bias', mod('Bias')),
    ('Sequential', lambda I: I.call(hk(I, 'Sequential', L(
        I, hk(I, 'Linear', K(8)), HostFn(lambda I, a, k: a[0]),
        hk(I, 'Linear', K(4)))), [S('x2')])),
    ('MLP', mod('nets.MLP', Tup([K(8), K(4)]))),
    ('MLP dropout', lambda I: I.call(hk(I, 'nets.MLP', Tup(
        [K(8), K(8), K(4)])), [S('x2')], {'dropout_rate': K(.5), 'rng': hk(
            I, 'next_rng_key')})),
    ('Conv1D', mod('Conv1D', K(8), K(3), _in=[S('x3')])),
    ('Conv2D', mod('Conv2D', K(8), K(3), _in=[S('x4')])),
    ('Conv2D NCHW', mod('Conv2D', K(8), K(3), data_format=K('NCHW'),
                        _in=[S('x4')])),
    ('Conv3D', mod('Conv3D', K(8), K(3), _in=[S('x5')])),
    ('Conv1DTranspose', mod('Conv1DTranspose', K(8), K(3), _in=[S('x3')])),
    ('Conv2DTranspose', mod('Conv2DTranspose', K(8), K(3), _in=[S('x4')])),
    ('Conv3DTranspose', mod('Conv3DTranspose', K(8), K(3), _in=[S('x5')])),
    ('DepthwiseConv2D', mod('DepthwiseConv2D', K(2), K(3), _in=[S('x4')])),
    ('SeparableDepthwiseConv2D', mod('SeparableDepthwiseConv2D', K(2), K(3),
                                     _in=[S('x4')])),
    ('LayerNorm', mod('LayerNorm', K(-1), TRUE, TRUE)),
    ('InstanceNorm', mod('InstanceNorm', TRUE, TRUE, _in=[S('x4')])),
    ('GroupNorm', mod('GroupNorm', K(4), _in=[S('x4')])),
    ('BatchNorm', mod('BatchNorm', TRUE, TRUE, K(.9),
                      _in=[S('x4'), TRUE])),
    ('BatchNorm eval', mod('BatchNorm', TRUE, TRUE, K(.9),
                           _in=[S('x4'), FALSE])),
    ('ExponentialMovingAverage', mod('ExponentialMovingAverage', K(.9))),
    ('SpectralNorm', mod('SpectralNorm')),
    ('Embed', mod('Embed', K(10), K(4), _in=[S('ids')])),
    ('MultiHeadAttention', mod('MultiHeadAttention', K(2), K(4), K(1.),
                               _in=[S('q'), S('k'), S('v')])),
    ('MaxPool', mod('MaxPool', K(2), K(2), K('SAME'), _in=[S('x4')])),
    ('AvgPool', mod('AvgPool', K(2), K(2), K('SAME'), _in=[S('x4')])),
    ('Reshape', mod('Reshape', Tup([K(4), K(-1)]))),
    ('Flatten', mod('Flatten', _in=[S('x4')])),
    ('dropout', lambda I: hk(I, 'dropout', hk(I, 'next_rng_key'), K(.5),
                             S('x2'))),
    ('one_hot', fn('one_hot', S('ids'), K(10))),
    ('multinomial', lambda I: hk(I, 'multinomial', hk(I, 'next_rng_key'),
                                 S('x2'), K(3))),
    ('BatchApply', lambda I: I.call(hk(I, 'BatchApply', hk(
        I, 'Linear', K(4))), [S('x3')])),
    ('expand_apply', lambda I: I.call(hk(I, 'expand_apply', hk(
        I, 'Linear', K(4))), [S('x2')])),
    ('to_module', lambda I: I.call(I.call(hk(I, 'to_module', HostFn(
        lambda I, a, k: a[0], 'f')), [K('name')]), [S('x2')])),
    ('VanillaRNN', core('VanillaRNN', K(8))),
    ('LSTM', core('LSTM', K(8))),
    ('GRU', core('GRU', K(8))),
    ('IdentityCore', core('IdentityCore')),
    ('DeepRNN', lambda I: (lambda m: I.call(m, [S('x2'), I.call(
        I.getattr(m, 'initial_state'), [S('N')])]))(hk(I, 'DeepRNN', L(
            I, hk(I, 'VanillaRNN', K(8)), hk(I, 'VanillaRNN', K(4)))))),
    ('deep_rnn_with_skip_connections', lambda I: (lambda m: I.call(m, [
        S('x2'), I.call(I.getattr(m, 'initial_state'), [S('N')])]))(hk(
            I, 'deep_rnn_with_skip_connections', L(
                I, hk(I, 'VanillaRNN', K(8)), hk(I, 'VanillaRNN', K(4)))))),
    ('dynamic_unroll', lambda I: (lambda m: hk(
        I, 'dynamic_unroll', m, S('xt'), I.call(I.getattr(
            m, 'initial_state'), [S('N')])))(hk(I, 'VanillaRNN', K(8)))),
    ('static_unroll', lambda I: (lambda m: hk(
        I, 'static_unroll', m, S('xt'), I.call(I.getattr(
            m, 'initial_state'), [S('N')])))(hk(I, 'VanillaRNN', K(8)))),
    ('Conv2DLSTM', lambda I: (lambda m: I.call(m, [S('x4'), I.call(I.getattr(
        m, 'initial_state'), [S('N')])]))(hk(
            I, 'Conv2DLSTM', Tup([K(8), K(8), K(3)]), K(4), K(3)))),
    ('VectorQuantizer', mod('nets.VectorQuantizer', K(4), K(8), K(.25),
                            _in=[S('x2'), TRUE])),
    ('VectorQuantizerEMA', mod('nets.VectorQuantizerEMA', K(4), K(8), K(.25),
                               K(.9), _in=[S('x2'), TRUE])),
    ('ResNet tiny', mod('nets.ResNet', Tup([K(1), K(1), K(1), K(1)]), K(10),
                        _in=[S('img'), TRUE])),
    ('ResNet18', mod('nets.ResNet18', K(10), _in=[S('img'), TRUE])),
    ('MobileNetV1', mod('nets.MobileNetV1', _in=[S('img'), TRUE])),
]
