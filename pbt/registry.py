"""Which module holds the sub-checks of which property."""
_BY_MODULE = {
    'rules': ['R01', 'R02', 'R03', 'R04', 'R05', 'R06', 'R07'],
    'sources': ['S01', 'S02', 'S03', 'S04', 'S05', 'S06'],
    'download': ['S07'],
    'config': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08'],
    'yamlprops': ['C07'],
    'resolving': ['I01', 'I02', 'I03', 'I04'],
    'installing': ['I05', 'I06', 'I07', 'I08'],
    'osprops': ['O01', 'O02', 'O03'],
    'plugins': ['P01'],
    'cli': ['X01'],
    'helpers': ['X02', 'X03', 'X04'],
    'usage': ['X05'],
}

MODULES = dict((pid, m) for m, pids in _BY_MODULE.items() for pid in pids)
