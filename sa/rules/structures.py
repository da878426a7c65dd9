"""C22/C23: params and state structures, and the functions that split them."""
import itertools

from ..harness import *
from .params import last_loc, norm_copy
from .state import make_map

SHAPES = [
    {},
    {'m': {}},
    {'m': {'w': 'a'}},
    {'m': {'w': 'a', 'b': 'b'}, 'n': {'w': 'c'}},
    {'m': {'w': 'a'}, 'm/n': {}, 'n': {'w': 'b', 'm': 'c'}},
    {'~': {'w': 'a'}, 'a': {'w': 'a', 'b': 'b', 'c': 'c'}},
]
SYMS = ('a', 'b', 'c', 'd', 'e')
FNS = {'filter': 0, 'partition': 0, 'map': 0}


def build(I, d, outer, inner):
  return make_map(I, outer, {m: make_map(I, inner, {
      k: S(v) for k, v in b.items()}) for m, b in d.items()})


def flat(d):
  return {(m, k): S(v) for m, b in d.items() for k, v in b.items()}


def content(I, m):
  """{(module, name): value} as client code sees it, or an Out."""
  r = attempt(I, client(I, 'flat_items'), [m])
  if not r.ok:
    return r
  out = {}
  for x in I.entries(r.v):
    t, l = x
    if l or not isinstance(t, Tup):
      return r
    a, b, v = t.items
    if not isinstance(a, K) or not isinstance(b, K):
      return r
    if (a.v, b.v) in out:
      return r
    out[a.v, b.v] = norm_copy(v)
  return out


def frozen(R, I, rule, c, m, expect):
  """m and its bundles reject assignment, and keep their contents."""
  for what, f, args in (('an assignment to a module', 'set_item', [
      m, K('m'), S('d')]), ('a deletion', 'del_item', [m, K('m')])):
    r = attempt(I, client(I, f), args)
    R.need(not r.ok, rule, f'{c}, {what}', f'gives {r!r}', last_loc(I))
  for mod in sorted({a for a, _ in expect}):
    b = I.getitem(m, K(mod))
    r = attempt(I, client(I, 'set_item'), [b, K('w'), S('d')])
    R.need(not r.ok, rule, f'{c}, an assignment to an entry', f'gives {r!r}',
           last_loc(I))
    r = attempt(I, client(I, 'del_item'), [b, K('w')])
    R.need(not r.ok, rule, f'{c}, a deletion of an entry', f'gives {r!r}',
           last_loc(I))
  R.need(content(I, m) == expect, rule, c, 'holds '
         f'{content(I, m)} afterwards', last_loc(I))


KINDS = [('dict', 'dict'), ('flat', 'dict'), ('defaultdict', 'dict'),
         ('ordered', 'ordered'), ('dict', 'flat')]


def rule_c22(R):
  for i, d in enumerate(SHAPES):
    fl = flat(d)
    for o, k in KINDS:
      def scen(I, d=d, fl=fl, o=o, k=k):
        setup(I, kind='flat' if o == 'flat' else 'dict', arrays=SYMS)
        text = f'{o} of {k} {d}'
        for truth in itertools.product((True, False), repeat=len(fl)):
          table = dict(zip(fl, truth))
          for vals in ((TRUE, FALSE), (K(1), K(0))):
            if vals[0] == K(1) and len(fl) > 2:
              continue
            split(R, I, build(I, d, o, k), fl, table, vals, text)
        mapped(R, I, build(I, d, o, k), fl, text)
      R.explore(f'split/{i}/{o}/{k}', scen)
  for n in (0, 1, 2, 3):
    for ds in itertools.product([1, 2, 3, 5], repeat=n):
      def scen2(I, ds=ds):
        setup(I, arrays=SYMS)
        ins, want = [], {}
        for j, i in enumerate(ds):
          d = {m: {k: v for k, v in b.items()} for m, b in SHAPES[i].items()}
          # values differ per structure so that the winner shows
          d = {m: {k: v for k, v in b.items()} for m, b in d.items()}
          I.levels.update({S(f'{v}{j}'): 0 for v in SYMS})
          d = {m: {k: f'{v}{j}' for k, v in b.items()} for m, b in d.items()}
          ins.append((build(I, d, *KINDS[(i + j) % len(KINDS)]), flat(d)))
          want.update(flat(d))
        c = f'merge of {[SHAPES[i] for i in ds]}'
        r = attempt(I, pub(I, 'data_structures.merge'), [m for m, _ in ins])
        R.need(r.ok and content(I, r.v) == want, 'merge-last-wins', c,
               f'gives {r!r} holding '
               f'{show(content(I, r.v)) if r.ok else ""}', last_loc(I))
        for m, f in ins:
          R.need(content(I, m) == f, 'input-unchanged', c,
                 f'an input holds {show(content(I, m))} afterwards',
                 last_loc(I))
        if r.ok:
          frozen(R, I, 'result-immutable', c, r.v, want)
          for m, f in ins:
            if I.type_of(m) == Ext('builtins.dict'):
              I.setitem(m, K('new'), I.mkdict({'w': S('d')}))
              for a in sorted({a for a, _ in f}):
                b = I.getitem(m, K(a))
                if I.type_of(b) == Ext('builtins.dict'):
                  I.setitem(b, K('w'), S('e'))
          R.need(content(I, r.v) == want, 'result-new', c,
                 'changing an input changes the result', last_loc(I))
      R.explore(f'merge/{ds}', scen2)


def split(R, I, m, fl, table, vals, text):
  for fn in ('partition', 'filter'):
    log = []

    def pred(I, a, k):
      log.append(tuple(a))
      return vals[0 if table.get((a[0].v, a[1].v)) else 1]
    r = attempt(I, pub(I, 'data_structures.' + fn), [HostFn(pred, 'pred'), m])
    sel = ', '.join(f'{a}/{b}' for (a, b), t in table.items() if t)
    c = f'{fn} of {text} selecting {sel or "nothing"}'
    if not r.ok:
      R.need(False, 'accepted', c, f'gives {r!r}', last_loc(I))
      continue
    yes = {x: v for x, v in fl.items() if table[x]}
    no = {x: v for x, v in fl.items() if not table[x]}
    R.need(sorted((a.v, b.v, str(norm_copy(v))) for a, b, v in log) == sorted(
        (a, b, str(v)) for (a, b), v in fl.items()), 'predicate-calls', c,
           f'the predicate is called with {show(log)}', last_loc(I))
    if fn == 'filter':
      R.need(content(I, r.v) == yes, 'selects', c,
             f'gives {show(content(I, r.v))}', last_loc(I))
      frozen(R, I, 'result-immutable', c, r.v, yes)
    else:
      ok = isinstance(r.v, Tup) and len(r.v.items) == 2
      if R.need(ok, 'selects', c, f'gives {r!r}', last_loc(I)) or ok:
        t, f = r.v.items
        R.need(content(I, t) == yes and content(I, f) == no, 'selects', c,
               f'gives {show(content(I, t))} and {show(content(I, f))}',
               last_loc(I))
        frozen(R, I, 'result-immutable', c, t, yes)
        frozen(R, I, 'result-immutable', c, f, no)
        b = attempt(I, pub(I, 'data_structures.merge'), [t, f])
        R.need(b.ok and content(I, b.v) == fl, 'merge-inverts', c,
               f'merging the parts gives {b!r}', last_loc(I))
    R.need(content(I, m) == fl, 'input-unchanged', c,
           f'the input holds {show(content(I, m))} afterwards', last_loc(I))


def mapped(R, I, m, fl, text):
  log = []

  def fn(I, a, k):
    log.append(tuple(a))
    return T('sym2', f'f_{a[0].v}_{a[1].v}', a[2])
  r = attempt(I, pub(I, 'data_structures.map'), [HostFn(fn, 'fn'), m])
  c = f'map over {text}'
  want = {(a, b): T('sym2', f'f_{a}_{b}', v) for (a, b), v in fl.items()}
  R.need(r.ok and content(I, r.v) == want, 'maps', c,
         f'gives {show(content(I, r.v)) if r.ok else r!r}', last_loc(I))
  R.need(len(log) == len(fl), 'predicate-calls', c,
         f'the function is called {len(log)} times', last_loc(I))
  R.need(content(I, m) == fl, 'input-unchanged', c,
         f'the input holds {show(content(I, m))} afterwards', last_loc(I))
  if r.ok:
    frozen(R, I, 'result-immutable', c, r.v, want)


# ------------------------------------------------------------------- C23
def rule_c23(R):
  for i, d in enumerate(SHAPES):
    fl = flat(d)
    for o, k in KINDS + [('flat', 'flat')]:
      def scen(I, d=d, fl=fl, o=o, k=k):
        setup(I, kind='flat' if o == 'flat' else 'dict', arrays=SYMS)
        c = f'{o} of {k} {d}'
        imm, mut = (pub(I, 'data_structures.to_immutable_dict'),
                    pub(I, 'data_structures.to_mutable_dict'))
        src = build(I, d, o, k)
        a = attempt(I, imm, [src])
        R.need(a.ok and content(I, a.v) == fl, 'content-kept',
               f'to_immutable_dict of a {c}', f'gives {a!r}', last_loc(I))
        if not a.ok:
          return
        a = a.v
        plain = k in ('dict', 'flat')
        if plain:
          frozen(R, I, 'result-immutable', f'to_immutable_dict of a {c}', a,
                 fl)
        # aliasing: changing the source does not change the copy
        if o != 'flat':
          I.setitem(src, K('new'), I.mkdict({'w': S('d')}))
          if k == 'dict':
            for m in sorted(d):
              b = I.getitem(src, K(m))
              I.setitem(b, K('w'), S('e'))
              I.setitem(b, K('z'), S('e'))
        R.need(content(I, a) == fl, 'result-new',
               f'to_immutable_dict of a {c}',
               'changing the source changes the copy', last_loc(I))
        # and back
        b = attempt(I, mut, [a])
        R.need(b.ok and content(I, b.v) == fl, 'content-kept',
               f'to_mutable_dict of an immutable {c}', f'gives {b!r}',
               last_loc(I))
        if not b.ok:
          return
        b = b.v
        want = dict(fl)
        for m in sorted(d):
          if plain:
            x = attempt(I, client(I, 'set_item'), [I.getitem(b, K(m)), K('w'),
                                                   S('e')])
            R.need(x.ok, 'result-mutable', f'to_mutable_dict of a {c}',
                   f'assigning an entry gives {x!r}', last_loc(I))
            want[m, 'w'] = S('e')
        x = attempt(I, client(I, 'set_item'), [b, K('new'), I.mkdict(
            {'w': S('d')})])
        R.need(x.ok, 'result-mutable', f'to_mutable_dict of a {c}',
               f'adding a module gives {x!r}', last_loc(I))
        want['new', 'w'] = S('d')
        R.need(content(I, b) == want, 'result-mutable',
               f'to_mutable_dict of a {c}', f'holds {show(content(I, b))}',
               last_loc(I))
        R.need(content(I, a) == fl, 'result-new',
               f'to_mutable_dict of a {c}',
               'changing the mutable copy changes the original', last_loc(I))
        reading(R, I, a, d, c)
        trees(R, I, a, d, fl, c)
      R.explore(f'convert/{i}/{o}/{k}', scen)


def rule_deep(R):
  """Structures that hold dicts below the modules are copied all the way."""
  for back in (False, True):
    def scen(I, back=back):
      setup(I, kind='dict', arrays=SYMS)
      imm, mut = (pub(I, 'data_structures.to_immutable_dict'),
                  pub(I, 'data_structures.to_mutable_dict'))
      c = 'to_mutable_dict' if back else 'to_immutable_dict'
      src = I.mkdict({'a': I.mkdict({'b': I.mkdict({'c': I.mkdict({
          'd': S('a')}), 'k': S('b')})}), 'e': S('c')})
      a = attempt(I, imm, [src])
      if not a.ok:
        R.need(False, 'content-kept', c, f'gives {a!r}', last_loc(I))
        return
      at = lambda m, *path: m if not path else at(I.getitem(m, K(
          path[0])), *path[1:])
      if back:
        old, new = a.v, attempt(I, mut, [a.v])
        if not new.ok:
          R.need(False, 'content-kept', c, f'gives {new!r}', last_loc(I))
          return
        new = new.v
        paths = [('a', 'b', 'c', 'd'), ('a', 'b', 'k'), ('a', 'z'), ('e',)]
        for p in paths:
          x = attempt(I, client(I, 'set_item'), [at(new, *p[:-1]), K(p[-1]),
                                                 S('e')])
          R.need(x.ok, 'result-mutable', f'{c}, entry {"/".join(p)}',
                 f'assigning it gives {x!r}', last_loc(I))
      else:
        old = a.v
        for p in (('a', 'b', 'c', 'd'), ('a', 'b', 'k'), ('e',)):
          I.setitem(at(src, *p[:-1]), K(p[-1]), S('e'))
        for p in (('a', 'b', 'c', 'd'), ('a', 'b', 'z'), ('a', 'z')):
          x = attempt(I, client(I, 'set_item'), [at(old, *p[:-1]), K(p[-1]),
                                                 S('e')])
          R.need(not x.ok, 'result-immutable', f'{c}, entry {"/".join(p)}',
                 'can be assigned', last_loc(I))
      for p, w in ((('a', 'b', 'c', 'd'), 'a'), (('a', 'b', 'k'), 'b'),
                   (('e',), 'c')):
        R.need(norm_copy(at(old, *p)) == S(w), 'result-new',
               f'{c}, entry {"/".join(p)}',
               'changes when the other structure is changed', last_loc(I))
    R.explore(f'deep/{"back" if back else "there"}', scen)


def reading(R, I, a, d, c):
  """All ways to read a FlatMapping agree."""
  o = attempt(I, client(I, 'in_order'), [a])
  ok = o.ok and isinstance(o.v, Tup)
  if ok:
    l1, l2, n = o.v.items
    ks = [[x[0] for x in I.entries(l)] for l in (l1, l2)]
    ok = ks[0] == ks[1] and sorted(x.v for x in ks[0]) == sorted(d) and \
        n == K(len(d))
  R.need(ok, 'reads-agree', f'iteration over an immutable {c}',
         f'gives {o!r}', last_loc(I))
  for m in sorted(d):
    x = I.getitem(a, K(m))
    y = attempt(I, HostFn(lambda I, a_, k: I.call(I.getattr(a, 'get'),
                                                  [K(m)])))
    R.need(y.ok and content(I, I.mkdict({'q': y.v})) == content(
        I, I.mkdict({'q': x})), 'reads-agree', f'.get on an immutable {c}',
           f'gives {y!r}', last_loc(I))
    R.need(I.truth_term(I.contains(a, K(m))) == TRUE, 'reads-agree',
           f'`in` on an immutable {c}', f'denies {m}', last_loc(I))
  r = attempt(I, HostFn(lambda I, a_, k: I.getitem(a, K('absent'))))
  R.need(r.raises(I, 'KeyError'), 'absent-key', f'an immutable {c}',
         f'[absent] gives {r!r}', last_loc(I))
  r = attempt(I, HostFn(lambda I, a_, k: I.getattr(a, 'absent')))
  R.need(r.raises(I, 'AttributeError'), 'absent-key', f'an immutable {c}',
         f'.absent gives {r!r}', last_loc(I))
  r = attempt(I, HostFn(lambda I, a_, k: I.call(I.getattr(a, 'get'), [
      K('absent'), S('d')])))
  R.need(r.ok and r.v == S('d'), 'absent-key', f'an immutable {c}',
         f'.get(absent, d) gives {r!r}', last_loc(I))


def trees(R, I, a, d, fl, c):
  """Copies made by jax.tree_map have the same contents and are immutable."""
  f = HostFn(lambda I, x, k: T('sym2', 'f', x[0]), 'f')
  r = attempt(I, Ext('jax.tree_map'), [f, a])
  want = {x: T('tree_map', T('sym2', 'f', T('leaf', v)), v)
          for x, v in fl.items()}
  if not r.ok or not isinstance(r.v, Obj):
    R.need(None, 'tree-map', f'jax.tree_map over a {c}', f'gives {r!r}')
    return
  R.need(content(I, r.v) == want, 'tree-map', f'jax.tree_map over a {c}',
         f'gives {show(content(I, r.v))}', last_loc(I))
  frozen(R, I, 'result-immutable', f'jax.tree_map over a {c}', r.v, want)
  R.need(content(I, a) == fl, 'input-unchanged', f'jax.tree_map over a {c}',
         'changes its input', last_loc(I))
