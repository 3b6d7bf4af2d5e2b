import prod


def check(c):
    mix = c.q([('full', 40), ('tiny', 120), ('ops', 150), ('deep', 15), ('ctl', 30), ('tails', 12), ('conv', 24), ('fold', 20)],
              [('full', 1000), ('tiny', 6000), ('ops', 479), ('deep', 400), ('ctl', 1500), ('tails', 400), ('conv', 240), ('fold', 1000)])
    prod.drive(c, 'ic', prod.corpus(c.seed, mix, optsets=prod.OPTSK))
    prod.drive(c, 'icint', prod.corpus(c.seed, c.q([('intr', 12)], [('intr', 600)]), optsets=prod.K))
    return 'translation_validation'
