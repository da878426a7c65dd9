"""The client program the rules analyse the library under.

This file is parsed and interpreted abstractly together with the library.  It
is never imported or executed.
"""
import functools

import haiku as hk


class Leaf(hk.Module):
  """Runs a callback in each kind of method."""

  def __init__(self, name=None):
    super().__init__(name=name)

  def __call__(self, f):
    return f()

  def other(self, f):
    return f()

  @property
  def prop(self):
    return hk.get_parameter('p', [], init=self.prop_init)

  @hk.transparent
  def clear(self, f):
    return f()


class InCtor(hk.Module):
  """Runs a callback inside its constructor."""

  def __init__(self, f, name=None):
    super().__init__(name=name)
    self.result = f()

  def __call__(self, f):
    return f()


class NoSuper(hk.Module):

  def __init__(self):
    pass


class Child(Leaf):

  def __call__(self, f):
    return super().__call__(f)


def with_cm(cm, f):
  with cm:
    return f()


def with_cm_only(cm):
  with cm:
    pass


def decorate(f):
  @functools.wraps(f)
  def wrapped(*args, **kwargs):
    return f(*args, **kwargs)
  return wrapped


class Base(hk.Module):
  """The inherited half of Kinds."""

  def inherited(self, f):
    return f()

  def overridden(self, f):
    raise NotImplementedError

  def extended(self, f):
    return f()

  @property
  def inherited_prop(self):
    return self.f()


class Kinds(Base):
  """One of every kind of method."""

  def __init__(self, f=None, name=None):
    super().__init__(name=name)
    self.f = f
    if f is not None:
      self.made = f()

  def __call__(self, f):
    return f()

  def meth(self, f):
    return f()

  def _private(self, f):
    return f()

  def __mangled(self, f):
    return f()

  def overridden(self, f):
    return f()

  def extended(self, f):
    return super().extended(f)

  def relay(self, f):
    return self.meth(f)

  def relay_private(self, f):
    return self.__mangled(f)

  def recurse(self, f, n=1):
    return self.recurse(f, n - 1) if n else f()

  def kwonly(self, *args, f=None, **kwargs):
    return f()

  @decorate
  def decorated(self, f):
    return f()

  lam = lambda self, f: f()

  @property
  def prop(self):
    return self.f()

  @prop.setter
  def prop(self, f):
    self.result = f()

  @prop.deleter
  def prop(self):
    self.result = self.f()

  @staticmethod
  def static(f):
    return f()

  @classmethod
  def klass(cls, f):
    return f()

  @hk.transparent
  def clear(self, f):
    return f()

  def __getitem__(self, f):
    return f()


def prop_set(m, f):
  m.prop = f


def prop_del(m):
  del m.prop


class Owner(hk.Module):
  """Holds another module and calls it from its own methods."""

  def __init__(self, inner, name=None):
    super().__init__(name=name)
    self.inner = inner

  def __call__(self, f):
    return self.inner(f)

  def meth(self, f):
    return self.inner.meth(f)


def forward(f, args, kwargs):
  return f(*args, **kwargs)


def flat_items(m):
  return [(a, b, v) for a, d in m.items() for b, v in d.items()]


def set_item(m, k, v):
  m[k] = v


def del_item(m, k):
  del m[k]


def set_attr(m, k, v):
  setattr(m, k, v)


def in_order(m):
  return list(m), list(m.keys()), len(m)


class Traced(hk.Module):
  """Reports its calls; what a call does is decided by the callback."""

  def __init__(self, on, name=None):
    super().__init__(name=name)
    self.on = on

  def __call__(self, *args, **kwargs):
    return self.on(self, '__call__', args, kwargs)

  def other(self, *args, **kwargs):
    return self.on(self, 'other', args, kwargs)

  def _hidden(self, *args, **kwargs):
    return self.on(self, '_hidden', args, kwargs)

  @property
  def prop(self):
    return self.on(self, 'prop', (), {})

  def relay(self, *args, **kwargs):
    return self.other(*args, **kwargs)

  @hk.transparent
  def clear(self, *args, **kwargs):
    return self.on(self, 'clear', args, kwargs)


def guarded(f, other):
  try:
    return f()
  except ValueError:
    return other()


def fail():
  raise ValueError('refused')
