"""Families of test programs: make(spec) -> Prog."""
import random
import datafam, fixed, gen, names, sysfam


def make(sp):
    f = sp['fam']
    rnd = random.Random('%s/%d/%d' % (f, sp['seed'], sp['i']))
    mode = sp.get('mode', 16)
    if f == 'full':
        return gen.Gen(1, rnd, mode)
    if f == 'tiny':
        return gen.Gen(1, rnd, mode, {'tiny': 1})
    if f == 'fault':
        return sysfam.Fault(1, rnd, mode)
    if f == 'chain':
        return sysfam.Chain(1, rnd, mode)
    if f == 'fixed':
        return fixed.Fixed(1, rnd, mode, sp['name'])
    if f == 'ops':
        return sysfam.Ops(1, rnd, mode, sp['i'])
    if f == 'deep':
        return sysfam.Deep(1, rnd, mode)
    if f == 'ctl':
        return sysfam.Ctl(1, rnd, mode)
    if f == 'tails':
        return sysfam.Tails(1, rnd, mode)
    if f == 'fold':
        return sysfam.Fold(1, rnd, mode)
    if f == 'conv':
        return sysfam.Conv(1, rnd, mode, sp['i'])
    if f == 'calls':
        return sysfam.Calls(1, rnd, mode, sp.get('va', False))
    if f == 'intr':
        return sysfam.Intr(1, rnd, mode)
    if f == 'prec':
        return sysfam.Prec(1, rnd, mode, sp.get('full', 0))
    if f == 'names':
        return names.Names(1, rnd, mode, sp['h'])
    if f == 'data':
        return datafam.Data(1, rnd, mode, sp['shapes'], sp.get('commons', True), sp.get('addr', False))
    raise KeyError(f)
