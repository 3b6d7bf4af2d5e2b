import fixed
import prod


def check(c):
    mix = c.q([('full', 80), ('tiny', 120), ('ops', 150), ('deep', 15), ('ctl', 30), ('tails', 12), ('conv', 24), ('fold', 20), ('calls', 20)],
              [('full', 2500), ('tiny', 6000), ('ops', 479), ('deep', 400), ('ctl', 1500), ('tails', 400), ('conv', 240), ('fold', 1000), ('calls', 1000)])
    prod.drive(c, 'c', prod.corpus(c.seed, mix, mode=32) + fixed.specs(32, 'sizeofneg'))
    return 'translation_validation'
