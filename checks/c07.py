"""Calling convention: who keeps which registers, how arguments are found, interrupts."""
import prod

K = [[], ['-K'], ['-O0', '-K'], ['-O0']]


def check(c):
    sp = prod.corpus(c.seed, c.q([('calls', 110), ('tiny', 60), ('full', 30)], [('calls', 6000), ('tiny', 3000), ('full', 800)]))
    for i, s in enumerate(sp):
        if s['fam'] == 'calls':
            s['va'] = True
        s['optsets'] = [K[i % 4], K[(i + 1) % 4]]
    prod.drive(c, 'tac', sp)
    sp = prod.corpus(c.seed, c.q([('intr', 40)], [('intr', 2000)]))
    for i, s in enumerate(sp):
        s['optsets'] = [[['-K'], ['-O0', '-K'], ['-O1', '-K']][i % 3]]
    prod.drive(c, 'int', sp)
    return 'translation_validation'
