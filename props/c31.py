"""C31: plotting."""
from vc.spec import *


def plot_case(skip):
  def fn(ip):
    n, m, L = pos_int(ip, 'n', 1), pos_int(ip, 'm'), pos_int(ip, 'L')
    p, q, t = param('p'), param('q'), param('t')
    fs = {k: z3.Function(k, I, I, R) for k in ('lcb', 'ucb', 'var')}
    cum = z3.Function('cum', I, R)
    nm = z3.Function('name', I, lib.Key)
    sel = z3.Function('sel', I, I)
    x = z3.Int('x@')
    ip.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < m), z3.And(0 <= sel(x), sel(x) < n))))
    Arm = ClassVal('Arm', 'spec.Arm', [], {}, None)
    arms = ip.alloc(Fam((p,), Obj(Arm, {'name': Opaque(nm(p), 'name')})))
    key = Lam((p,), Ref(arms.oid, (p,)))

    def hist(f):
      h = ip.alloc(Fam((q,), Seq(Dim(L), Lam((t,), Num(f(q, t))))))
      return ip.alloc(FamD(Dim(n), key, Lam((p,), Ref(h.oid, (p,)))))
    cums = ip.alloc(Seq(Dim(L), Lam((t,), Num(cum(t)))))
    D = {k: hist(f) for k, f in fs.items()}
    Data = ClassVal('BanditData', 'spec.BanditData', [], {}, None)
    bd = ip.alloc(Obj(Data, dict(lcb_by_arm=D['lcb'], ucb_by_arm=D['ucb'], var_est_by_arm=D['var'], cum_samples=cums,
                                 samples_by_arm=Opaque(z3.Const('sba', lib.Key)), best_arm=Opaque(z3.Const('ba', lib.Key)))))
    alist = ip.alloc(Seq(Dim(m), Lam((p,), Ref(arms.oid, (sel(p),)))))
    rec = {k: ip.alloc(PyL(())) for k in ('labelled', 'plain', 'band')}

    def r_plot(ip_, a, k):
      if len(a) < 3:
        raise Unsupported('plot without x and y')
      lab = k.get('label')
      ip_.libs['$append'](ip_, rec['labelled' if lab is not None else 'plain'],
                          (a[1], a[2], lab) if lab is not None else (a[1], a[2]))
      return ip_.alloc(PyL(()))

    def r_fill(ip_, a, k):
      a = list(a[1:]) + [k[z] for z in ('x', 'y1', 'y2') if z in k]
      ip_.libs['$append'](ip_, rec['band'], tuple(a[:3]))
    noop = lambda nm_: Bi(nm_, lambda ip_, a, k: None)
    Spine = ClassVal('Spine', 'spec.Spine', [], {z: noop(z) for z in ('set_visible', 'set_color', 'set_linewidth', 'set')}, None)
    ns = {z: noop(z) for z in ('set_xlabel', 'set_ylabel', 'set_title', 'set_ylim', 'set_xlim', 'legend', 'grid', 'set', 'set_yscale', 'tick_params')}
    ns.update(plot=Bi('plot', r_plot), fill_between=Bi('fill_between', r_fill))
    Ax = ClassVal('Axes', 'spec.Axes', [], ns, None)
    sp = {z: ip.alloc(Obj(Spine, {})) for z in ('top', 'right', 'left', 'bottom')}
    ax = ip.alloc(Obj(Ax, {'spines': ip.alloc(PyD(sp))}))
    if skip == 'default':
      args, s = [], 0
    else:
      sv = z3.Int('skip@')
      ip.assume(sv >= 0)
      args, s = [Num(sv)], sv
    out = attempt(ip, lambda: ip.call(get(ip, 'plotting_utils.plot_bandit_results'), [ax, alist, bd] + args, {}))
    if not ok(ip, out, 'plotting returns'):
      return
    ip.oblige('returns the axis', isinstance(out[1], Ref) and out[1].oid == ax.oid)
    s0 = iv(s)
    cut = z3.If(s0 > L, L, s0)
    xs = ('x', None)

    def shifted(v, f):
      """list/array v is f from round cut on."""
      d, lam = ip.libs['$iter'](ip, v)
      z = param('z')
      return And(ip.dims_eq(d, Dim(L - cut)), forall([z], Implies(d.dom(z), ip.same(lam(z), Num(f(z + cut))))))

    S = {k: ip.as_seq(ip.cell(v)) for k, v in rec.items()}
    ip.oblige('one labelled curve per arm', n_eq(dimlen(ip, S['labelled'].dim), Num(m)))
    ip.oblige('two bound curves per arm', n_eq(dimlen(ip, S['plain'].dim), Num(2 * m)))
    ip.oblige('one band per arm', n_eq(dimlen(ip, S['band'].dim), Num(m)))
    if ip.branch(m == 0):
      return
    j = z3.Int('j@')
    ip.assume(And(0 <= j, j < m))
    a = sel(j)
    of = lambda k: (lambda z: fs[k](a, z))
    X, Y, lab = S['labelled'].lam(j)
    ip.oblige('estimate curve: x is the cumulative samples', shifted(X, cum))
    ip.oblige('estimate curve: own estimates', shifted(Y, of('var')))
    ip.oblige('estimate curve: own name', ip.same(lab, Opaque(nm(a))))
    X1, Y1 = S['plain'].lam(2 * j)
    X2, Y2 = S['plain'].lam(2 * j + 1)
    ip.oblige('bound curves: x is the cumulative samples', And(shifted(X1, cum), shifted(X2, cum)))
    ip.oblige('bound curves: own lower and upper bounds',
              Or(And(shifted(Y1, of('lcb')), shifted(Y2, of('ucb'))), And(shifted(Y1, of('ucb')), shifted(Y2, of('lcb')))))
    X, Y1, Y2 = S['band'].lam(j)
    ip.oblige('band: x is the cumulative samples', shifted(X, cum))
    ip.oblige('band: between own bounds', Or(And(shifted(Y1, of('lcb')), shifted(Y2, of('ucb'))), And(shifted(Y1, of('ucb')), shifted(Y2, of('lcb')))))
  return fn


CASES = [Case(f'plot_bandit_results skip={s}', plot_case(s), ['plotting_utils.plot_bandit_results'], min_obligations=10) for s in ('default', 'any')]
ASSUMPTIONS = ['all histories have the same length as cum_samples (C01)']
