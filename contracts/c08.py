"""C08: adaptation keeps the differential weight within its limits."""
from pydv.harness import contract

DE = 'de.FManager.'


def make(dv):
    """An FManager in an arbitrary state reachable by up/down requests."""
    M = dv.mod('de')
    CR = dv.real('CR', 0, 1)
    Np = dv.int('Np', 1, 10**6)
    adaptive = dv.choose('adaptive', [True, False])
    kind = dv.choose('kind', ['scalar', 'range'])
    if kind == 'scalar':
        F0 = dv.real('F')
        dv.assume(F0 > 0)
        F = F0
    else:
        lo, hi = dv.real('Flo'), dv.real('Fhi')
        dv.assume(lo >= 0)
        dv.assume(hi > 0)
        dv.assume(hi >= lo)
        F = (lo, hi)
    fm = M.FManager(F, CR, Np, adaptive)
    return M, fm, kind, CR, Np, F, adaptive


@contract('C08', 'de.FManager.__init__ de.FManager.lowest de.FManager.highest',
          modes=('proof', 'concrete'), runs=300)
def construct(dv):
    """Establishes the class invariant and the meaning of a zero lower end."""
    M, fm, kind, CR, Np, F, adaptive = make(dv)
    crit = fm.criticalF
    dv.check('critical', dv.close(crit*crit*Np, 1 - 0.5*CR))
    dv.check('critical-positive', crit > 0)
    if kind == 'scalar':
        dv.check('lowest', dv.eq(fm.lowest, F))
        dv.check('highest', dv.eq(fm.highest, F))
    else:
        zero = F[0] == 0
        dv.check('lowest', dv.eq(fm.lowest, dv.ite(zero, crit, F[0])))
        dv.check('highest', dv.eq(fm.highest, F[1]))
    dv.check('not-limited', not fm.limited)
    dv.reach('constructed')


def snapshot(fm):
    return fm.lowest, fm.highest, fm.limited


def arbitrary(dv, fm, kind, F):
    """
    Puts the manager in an arbitrary state satisfying the class invariant.
    """
    L0, H0 = fm.lowest, fm.highest
    if kind == 'scalar':
        l = h = dv.real('l')
        dv.assume(l > 0)
        dv.assume(l <= L0)
        dv.assume(dv.Or(l > fm.criticalF, dv.eq(l, L0)))
        fm.lowest = l
    else:
        l, h = dv.real('l'), dv.real('h')
        dv.assume(l > 0)
        dv.assume(l <= L0)
        dv.assume(dv.Or(l > fm.criticalF, dv.eq(l, L0)))
        dv.assume(h <= H0)
        dv.assume(l <= h)
        fm.lowest = l
        fm.highest = h
    fm.limited = dv.choose('limited', [False, True])
    dv.check('state-set', dv.And(dv.eq(fm.lowest, l), dv.eq(fm.highest, h)))
    return L0, H0


def invariant(dv, fm, L0, H0, what):
    l, h = fm.lowest, fm.highest
    dv.check(what + '.lowest-at-most-original', l <= L0)
    dv.check(what + '.highest-at-most-original', h <= H0)
    dv.check(what + '.positive', dv.And(l > 0, h > 0))
    dv.check(what + '.ordered', l <= h)
    dv.check(what + '.above-critical',
             dv.Or(l > fm.criticalF, dv.close(l, L0)))


def check_down(dv, fm, kind, adaptive, before, L0, H0, crit):
    l0, h0, lim0 = before
    l, h, lim = snapshot(fm)
    same_l, same_h = dv.eq(l, l0), dv.eq(h, h0)
    same = dv.And(same_l, same_h)
    if not adaptive:
        dv.check('down.no-change-unless-adaptive', dv.And(
            same, bool(lim) == bool(lim0)))
        return
    scalar = kind == 'scalar'
    s_low = fm.scaleSingle if scalar else fm.scaleLowest
    dv.check('down.never-raises', dv.And(l <= l0, h <= h0))
    dv.check('down.lower-end-stays-above-critical',
             dv.Or(same_l, l > crit))
    dv.check('down.stops-before-critical',
             dv.implies(s_low*l0 <= crit, same_l))
    if not scalar:
        dv.check('down.one-end-at-a-time', dv.Or(same_l, same_h))
        dv.check('down.upper-end-only-after-lower-is-exhausted',
                 dv.implies(s_low*l0 > crit, same_h))
    if lim and not lim0:
        dv.check('down.limited-only-if-nothing-lowered', same)
        dv.check('down.limited-only-if-exhausted', s_low*l0 <= crit)
        dv.reach('limited')
    dv.check('down.limited-if-nothing-lowered', dv.implies(same, bool(lim)))
    if not lim0 and not lim:
        dv.check('down.lowered-otherwise', dv.Not(same))
    dv.check('down.indication-not-withdrawn', bool(lim) or not lim0)


def check_up(dv, fm, kind, adaptive, before, L0, H0):
    l0, h0, lim0 = before
    l, h, lim = snapshot(fm)
    same_l, same_h = dv.eq(l, l0), dv.eq(h, h0)
    if not adaptive:
        dv.check('up.no-change-unless-adaptive', dv.And(
            same_l, same_h, bool(lim) == bool(lim0)))
        return
    dv.check('up.withdraws-limited', not lim)
    dv.check('up.never-lowers', dv.And(l >= l0, h >= h0))
    if kind == 'range':
        dv.check('up.upper-end-first', dv.implies(
            h0 < H0, dv.And(h > h0, same_l)))
        dv.check('up.upper-end-at-original', dv.implies(
            dv.eq(h0, H0), same_h))
        dv.check('up.lower-end', dv.implies(
            dv.And(dv.eq(h0, H0), l0 < L0), l > l0))
    else:
        dv.check('up.raises', dv.implies(l0 < L0, l > l0))
    dv.check('up.lower-end-at-original', dv.implies(dv.eq(l0, L0), same_l))


def is_adaptive(dv, kind, F, adaptive):
    if kind == 'range' and dv.truth(F[0] == 0):
        return False
    return adaptive


@contract('C08', 'de.FManager.down de.FManager.lowest de.FManager.highest',
          modes=('proof', 'concrete'), runs=400)
def down(dv):
    """From any state satisfying the invariant, down() does as specified."""
    M, fm, kind, CR, Np, F, adaptive = make(dv)
    adaptive = is_adaptive(dv, kind, F, adaptive)
    if not adaptive:
        L0, H0 = fm.lowest, fm.highest
    else:
        L0, H0 = arbitrary(dv, fm, kind, F)
    before = snapshot(fm)
    dv.call('down', fm.down)
    check_down(dv, fm, kind, adaptive, before, L0, H0, fm.criticalF)
    if adaptive:
        invariant(dv, fm, L0, H0, 'down')
        dv.reach('adaptive')


@contract('C08', 'de.FManager.up de.FManager.lowest de.FManager.highest',
          modes=('proof', 'concrete'), runs=400)
def up(dv):
    """From any state satisfying the invariant, up() does as specified."""
    M, fm, kind, CR, Np, F, adaptive = make(dv)
    adaptive = is_adaptive(dv, kind, F, adaptive)
    if not adaptive:
        L0, H0 = fm.lowest, fm.highest
    else:
        L0, H0 = arbitrary(dv, fm, kind, F)
    before = snapshot(fm)
    dv.call('up', fm.up)
    check_up(dv, fm, kind, adaptive, before, L0, H0)
    if adaptive:
        invariant(dv, fm, L0, H0, 'up')
        dv.reach('adaptive')


@contract('C08', 'de.FManager.get', modes=('proof', 'concrete'), runs=200)
def draw(dv):
    """The weight drawn lies between the current ends."""
    drawing(dv)


def drawing(dv):
    M, fm, kind, CR, Np, F, adaptive = make(dv)
    if is_adaptive(dv, kind, F, adaptive):
        arbitrary(dv, fm, kind, F)
    else:
        dv.assume(fm.lowest <= fm.highest)
    before = snapshot(fm)
    x = dv.call('get', fm.get)
    dv.check('get.within', dv.And(fm.lowest <= x, x <= fm.highest))
    dv.check('get.pure', dv.And(dv.eq(before[0], fm.lowest),
                                dv.eq(before[1], fm.highest)))


@contract('C08', 'de.FManager.__init__ de.FManager.down de.FManager.up',
          modes=('concrete',), runs=300)
def sequences(dv):
    """Long request sequences from construction (run-time cross-check)."""
    M, fm, kind, CR, Np, F, adaptive = make(dv)
    adaptive = is_adaptive(dv, kind, F, adaptive)
    r = dv.rng()
    L0, H0 = fm.lowest, fm.highest
    crit = fm.criticalF
    dv.assume(L0 <= H0)
    p = r.choice([0.1, 0.5, 0.9])
    for _ in range(80):
        before = snapshot(fm)
        if r.random() < p:
            fm.up()
            check_up(dv, fm, kind, adaptive, before, L0, H0)
        else:
            fm.down()
            check_down(dv, fm, kind, adaptive, before, L0, H0, crit)
        invariant(dv, fm, L0, H0, 'seq')
        x = fm.get()
        dv.check('seq.get', fm.lowest <= x <= fm.highest)
        dv.check('seq.critical', dv.eq(fm.criticalF, crit))
