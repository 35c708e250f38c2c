"""Expansion-depth flags are as before after selection / uncertainty estimation, whichever call inside them fails."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from symx import build, calc, check, par, smt, world, terms as T

XF = [T.ivar('x%d' % k) for k in range(12)]


def one(rep, item):
    what, ab, h, mdr, loops, faulty = item
    E = par.Entry(calc.TUS)
    fault = [] if faulty else None
    A = world.Abstract(fault=fault)
    if what == 'compare':
        ints, entry, nout, off = [ab, 0, mdr, 0, 0, 0] + XF, 'c_compare', 22, 10
        extra = []
    else:
        ints, entry, nout, off = [ab, h, mdr] + list(loops) + XF, 'c_unc_flags', 13, 1
        extra = [T.var('m%d' % k) for k in range(4)]
    outs = E.sym(entry, ints, nout, setup=A.install, extra=extra)
    name = '%s alphab=%d mdr=%d %s loops=%s%s' % (entry, ab, mdr, calc.ID2H.get(h, 'id %s' % h), loops,
                                                    ' with a failing call' if faulty else '')
    thrown = 0
    for o, r in outs:
        if o.kind != 'ret':
            rep.unknown(name, 'outcome %s %s' % (o.kind, o.info))
            continue
        S = smt.Smt()
        pc = S.b(S(o.pc)) if type(o.pc) is T.Node else z3.BoolVal(bool(o.pc))
        rv = o.val
        if type(rv) is T.Node:
            rv = S(rv)
        else:
            thrown += rv == 1
        got = S.many(r[off:off + 12])
        ref = S.many([T.itof('sitofp', 32, x) for x in XF])
        S.ax = []
        claim = z3.And([z3.BoolVal(True)] + [a == b for a, b in zip(got, ref)])
        ok, m = smt.prove(rep, claim, [pc], S)
        if ok:
            rep.ok(name)
            continue
        # replay: natively only what the real code can be made to do: a throw through an unusable hierarchy or the plain run
        bad = [calc.FLAGS[k] for k in range(12) if not z3.is_true(z3.simplify(got[k] == ref[k]))]
        replay(rep, name, entry, ab, h, mdr, loops, bad, faulty)
        break
    rep.witness(name, (not faulty) or len(outs) > 1 or thrown or any(type(o.val) is T.Node for o, _ in outs))
    E.note(rep)


def replay(rep, name, entry, ab, h, mdr, loops, bad, faulty):
    N = calc.faulty_native()
    vals = [3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25]
    for n in ([0] if not faulty else [0] + list(range(1, 80))):
        for base in (0, 1):
            p = dict(par.POINT)
            if base:
                p['MG'] = 500.
            if entry == 'c_compare':
                st, o = N('cf_compare', p, [ab, 0, mdr, 0, 0, n] + vals, 22)
                got = o[10:22]
            else:
                st, o = N('cf_unc_flags', p, [ab, h, mdr] + list(loops or []) + vals + [n], 13, extra=[1e4, 10., 10., 2e4])
                got = o[1:13]
            rep.replays += 1
            if got != [float(x) for x in vals]:
                rep.violate(name, 'expansion flags differ afterwards (%s)' % ', '.join(bad),
                            {'entry': entry, 'preset': vals, 'afterwards': got, 'failing call': n, 'parameters': p,
                             'ints': [ab, h, mdr] + list(loops or []), 'exception left': st})
                return
    rep.unknown(name, 'flags %s not restored on a path the replay does not reach' % bad)


def part(rep):
    rep.bounds.append('any preset values of the 12 flags, all parameters; every call of a hierarchy constructor or Fortran '
                      'routine inside may fail (one symbolic boolean per call site instance): all 14 hierarchies, all loop '
                      'orders, both sectors, DR and MDR')
    rep.assume.append('fault model: an exception derived from std::exception leaves the hierarchy constructor or the two-loop '
                      'routine; memory exhaustion elsewhere is outside')
    items = []
    for ab in (0, 1):
        for mdr in (0, 1):
            for faulty in (0, 1):
                items.append(('compare', ab, None, mdr, None, faulty))
    for h in list(range(14)) + [-1, 14]:
        for ab in (0, 1):
            for mdr in (0, 1):
                for loops in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
                    for faulty in (0, 1):
                        if h in range(14) or not faulty:
                            items.append(('unc', ab, h, mdr, loops, faulty))
    check.parallel(rep, one, items)


if __name__ == '__main__':
    check.main('P07', 'expansion flags survive selection and uncertainty estimates', [('flags', part)])
