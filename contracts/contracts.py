import importlib
MODS = ['msa', 'scan', 'blocks', 'innerc', 'mca', 'hashc', 'copyc', 'bitmap', 'drv', 'memory', 'conv', 'heapc', 'sortc']
def all_units():
    out = []
    for m in MODS: out += importlib.import_module(m).UNITS
    return out
