"""C09: constructor validation."""
from vc.spec import *

CLASSES = ['UniformAlgorithm', 'LUCBAlgorithm', 'SuccessiveEliminationAlgorithm']


def arms_list(ip):
  n = pos_int(ip, 'narms', 1)
  p = param('p')
  nm = z3.Function('armtok', I, lib.Key)
  return ip.alloc(Seq(Dim(n), Lam((p,), Opaque(nm(p), 'arm')))), n


def case(cls, conf_given, lim_kind):
  def fn(ip):
    arms, n = arms_list(ip)
    prob = sym_real(ip, 'error_prob', True)
    tol = sym_real(ip, 'error_tol', True, nan=False)
    conf = sym_real(ip, 'confidence', True) if conf_given else None
    if lim_kind == 'none':
      lim = None
    elif lim_kind == 'int':
      lim = Num(z3.Int('sample_limit@'))
      ip.assume(lim.v >= 0)
    else:
      lim = sym_real(ip, 'sample_limit', True, nan=False)
      ip.assume(n_le(0, lim))
    nonneg = Num(z3.Int('units@'))
    ip.assume(nonneg.v >= 1)
    kw = dict(arm_list=arms, prob_model=Opaque(z3.Const('gen@', lib.Key), 'generator'), error_prob=prob, error_tol=tol, confidence=conf, sample_limit=lim,
              units_per_round=nonneg)
    out = attempt(ip, lambda: ip.call(get(ip, 'bandits.' + cls), [], kw))
    bad = Or(Not(And(n_lt(0, prob), n_lt(prob, 1))), n_lt(tol, 0))
    if conf is not None:
      bad = Or(bad, Not(And(n_lt(0, conf), n_lt(conf, 1))))
    elif lim is None:
      bad = True
    else:
      bad = Or(bad, Not(isk(lift(lim), FIN)))
    if out[0] == 'raise':
      ip.oblige('raises ValueError', out[1] == 'ValueError', out[1])
      ip.oblige('raises only for invalid configurations', bad)
      return
    ip.oblige('invalid configurations are rejected', Not(bad))
    o = out[1]
    for k in ('error_prob', 'error_tol', 'units_per_round'):
      ip.oblige(f'{k} is kept', ip.same(ip.getattr(o, k), kw[k]))
    if conf is not None:
      ip.oblige('confidence is kept', ip.same(ip.getattr(o, 'confidence'), conf))
    got = ip.getattr(o, 'sample_limit')
    if lim is not None:
      ip.oblige('sample_limit is kept', ip.same(got, lim))
    else:
      ip.oblige('no limit means unlimited', got is None or n_eq(got, const_float(float('inf'))))
    ip.oblige('arms are kept', any(isinstance(v, Ref) and v.oid == arms.oid for v in ip.cell(o).f.values()))
  return fn


CASES = []
for _c in CLASSES:
  for _g in (True, False):
    for _l in ('none', 'int', 'real'):
      CASES.append(Case(f'{_c}(confidence={"given" if _g else "None"}, limit={_l})', case(_c, _g, _l),
                        ['bandits.BAIBanditAlgorithm.__init__'], min_obligations=2))
