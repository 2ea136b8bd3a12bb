from . import blockcipher

FILES = ('gostcipher/gost_34_12_2015.py',)
RULE, ASSUMES = blockcipher.RULE, blockcipher.ASSUMES
REACH = {'blocks': 1000, 'chosen states': 3000}


def cases(tier, rng):
    return blockcipher.cases('kuznechik', tier, rng)


def run(case, mon):
    blockcipher.run('kuznechik', case, mon)
