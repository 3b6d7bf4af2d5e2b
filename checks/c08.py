"""Precedence, associativity, nesting of statements: the same tree printed with as few
parentheses as the documentation allows, with all of them, and with odd spacing."""
import prod


def check(c):
    for kind, mode, mix in (
            ('tac', 16, c.q([('prec', 60), ('ctl', 50), ('tails', 10)], [('prec', 3000), ('ctl', 2000)])),
            ('vm', 16, c.q([('prec', 60), ('ctl', 30), ('tails', 10)], [('prec', 3000), ('ctl', 2000)])),
            ('ic', 16, c.q([('prec', 30), ('ctl', 20)], [('prec', 2000), ('ctl', 1000)])),
            ('c', 32, c.q([('prec', 60), ('ctl', 50), ('tails', 10)], [('prec', 3000), ('ctl', 2000)]))):
        sp = prod.corpus(c.seed, mix, mode=mode)
        for i, s in enumerate(sp):
            if s['fam'] == 'prec':
                s['full'] = i % 4 == 3
        prod.drive(c, kind, sp)
    return 'translation_validation'
