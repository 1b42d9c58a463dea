from . import wire, callbacks, protocol
from .specs import of


class Check:
    def __init__(self, rules, explain, minimum=1, level='proof', assumptions=()):
        self.rules, self.explain, self.minimum, self.level = rules, explain, minimum, level
        self.assumptions = list(assumptions)


NF = 'Each obligation compares the value-flow normal form of the code (returned value, ordered effects, ' \
     'raised errors, for unknown arguments) with that of its specification in /verif/spec.'

CHECKS = {
    'C01': Check([wire.c01], 'operation names', 100),
    'C02': Check([wire.c02], 'options', 100),
    'C03': Check([wire.c03], 'contract', 100),
    'C04': Check([callbacks.c04, of('C04')], 'callbacks', 40),
    'C05': Check([callbacks.c05, of('C05')], 'nested pipelines', 30),
    'C06': Check([of('C06')], NF, 1),
    'C07': Check([of('C07')], NF, 2),
    'C08': Check([of('C08')], NF, 12),
    'C09': Check([of('C09')], NF, 4),
    'C29': Check([of('C29')], NF, 4),
    'C10': Check([of('C10')], NF, 15),
    'C11': Check([protocol.c11], 'protocol', 100),
    'C12': Check([of('C12')], NF, 8),
    'C13': Check([of('C13')], NF, 6),
    'C14': Check([of('C14')], NF, 10),
    'C15': Check([of('C15')], NF, 6),
    'C16': Check([of('C16')], NF, 6),
    'C17': Check([of('C17')], NF, 5),
    'C18': Check([of('C18')], NF, 4),
    'C19': Check([of('C19')], NF, 3),
    'C20': Check([of('C20')], NF, 8),
    'C21': Check([of('C21')], NF, 3),
    'C23': Check([of('C23')], NF, 40),
    'C26': Check([of('C26')], NF, 12),
    'C27': Check([of('C27')], NF, 6),
    'C22': Check([of('C22')], NF, 15),
    'C24': Check([of('C24')], NF, 25),
    'C25': Check([of('C25')], NF, 18),
    'C28': Check([of('C28')], NF, 2),
    'C30': Check([of('C30')], NF, 15),
    'C31': Check([of('C31')], NF, 15),
}
