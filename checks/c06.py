"""Every optimization level of the same program."""
import prod

ALL = [['-O0'], ['-O'], ['-O1'], []]


def check(c):
    for kind, mode, mix in (
            ('tac', 16, c.q([('fold', 70), ('ctl', 80), ('tails', 10), ('tiny', 60)], [('fold', 3000), ('ctl', 2000), ('full', 500), ('ops', 479)])),
            ('vm', 16, c.q([('fold', 40), ('ctl', 50), ('tiny', 30)], [('fold', 1500), ('ctl', 1000), ('full', 300), ('ops', 479)])),
            ('c', 32, c.q([('fold', 40), ('ctl', 40), ('tiny', 20)], [('fold', 1500), ('ctl', 1000), ('full', 200), ('ops', 479)]))):
        sp = prod.corpus(c.seed, mix, mode=mode)
        for s in sp:
            s['optsets'] = ALL
        prod.drive(c, kind, sp)
    return 'translation_validation'
