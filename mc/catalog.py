"""Which module decides which property."""
import importlib

TABLE = {
    'C23': ('checks.missing', None),
    'C22': ('checks.objects', 'equality'),
    'C21': ('checks.edits', None),
    'C15': ('checks.files', 'history'),
    'C16': ('checks.files', 'faults'),
    'C17': ('checks.files', 'reject'),
    'C02': ('checks.values', 'text'),
    'C03': ('checks.values', 'number'),
    'C01': ('checks.reader', None),
    'C04': ('checks.fidelity', 'Board'),
    'C05': ('checks.fidelity', 'Schematic'),
    'C06': ('checks.fidelity', 'Footprint'),
    'C07': ('checks.fidelity', 'SymbolLib'),
    'C08': ('checks.fidelity', 'WorkSheet'),
    'C09': ('checks.fidelity', 'DesignRules'),
    'C10': ('checks.fidelity', 'LibTable'),
    'C11': ('checks.shapes', 'order'),
    'C12': ('checks.objects', 'stable'),
    'C13': ('checks.objects', 'naming'),
    'C14': ('checks.objects', 'isolation'),
    'C19': ('checks.objects', 'new'),
    'C20': ('checks.shapes', 'unknown'),
    'C18': ('checks.shapes', 'layout'),
    'C24': ('checks.threads', None),
    'C25': ('checks.moves', None),
}


def load_module(prop):
    return importlib.import_module(TABLE[prop][0])


def start(run):
    m = load_module(run.prop)
    m.start(run, TABLE[run.prop][1])
