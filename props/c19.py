"""C19: TabularCPD. # WIP"""
from props.datalib import *
from vc.lib import RKEY, SKEY, Key


def try_case(ip):
  n = pos_int(ip, 'n', 1)
  nf = pos_int(ip, 'nf', 1)
  x = sym_array(ip, 'x', [n], dt='i')
  z = sym_array(ip, 'z', [n, nf])
  ratio = sym_real(ip, 'ratio')
  ip.assume(ratio.v >= 1)
  o = call(ip, get(ip, 'data.TabularCPD'), ratio)
  out = attempt(ip, lambda: meth(ip, o, 'fit', x, z))
  print(out)
  for k in ('x_values', 'z_values', 'x_marginal', 'table'):
    c = ip.cell(ip.getattr(o, k))
    print(k, type(c).__name__, [(s, getattr(c, s)) for s in ('dom', 'val') if hasattr(c, s)])
    try: print([ (a, str(getattr(c,a).body)[:1500]) for a in ('dom','val')])
    except Exception as e: print(e)
    if k == 'table':
      r = c.val.body
      if isinstance(r, Ref):
        cc = ip.heap[r.oid]
        print(type(cc).__name__, cc.params, type(cc.cell).__name__)
        print(str(cc.cell.dom.body)[:1500]); print(str(lift(cc.cell.val.body).v)[:3000])


CASES = [Case('try', try_case)]
