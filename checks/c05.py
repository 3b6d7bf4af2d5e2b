import prod


def check(c):
    mix = c.q([('full', 50), ('tiny', 50), ('fault', 40), ('chain', 25), ('ops', 20), ('calls', 10)],
              [('full', 1500), ('tiny', 3000), ('fault', 1500), ('chain', 600), ('ops', 479), ('calls', 500)])
    prod.drive(c, 'rtc', prod.corpus(c.seed, mix, mode=32))
    return 'translation_validation'
