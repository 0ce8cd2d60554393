"""the programs of the current run, by configuration"""
PROGS = {}


def get(c):
    return PROGS[c]
