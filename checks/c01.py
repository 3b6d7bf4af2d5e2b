import fixed
import prod


def check(c):
    mix = c.q([('full', 80), ('tiny', 200), ('ops', 240), ('deep', 20), ('ctl', 30), ('tails', 12), ('conv', 24), ('fold', 20)],
              [('full', 3000), ('tiny', 8000), ('ops', 479), ('deep', 600), ('ctl', 1500), ('tails', 400), ('conv', 240), ('fold', 1500)])
    prod.drive(c, 'tac', prod.corpus(c.seed, mix) + fixed.specs(16, 'addoverflow'))
    return 'translation_validation'
