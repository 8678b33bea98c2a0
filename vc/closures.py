"""Which contracts each property rests on, and which of their obligations express it."""
import re
from . import tasks, tasks2, tasks3, tasks_vhdl
from .tasks import TASKS

FRAME = re.compile(r'not modified|independent of the|own format object|own data|does not alias')
WARN = re.compile(r'warning')
REPR = re.compile(r'stored as|numpy data|ndarray of objects|arbitrary-precision|representation|: shape of|: multiple of the LSB|within the range of the result format|returns an object of|carries the requested format|: data type')

# longest first, for an even load
HEAVY = ['caddsub', 'cadd', 'csub', 'maddsub', 'madd', 'msub', 'cmult', 'round', 'mresize', 'mshift', 'fmt', 'inrange', 'cshift', 'mmult']


def kind_of_label(label):
    return 'frame' if FRAME.search(label) else 'warn' if WARN.search(label) else 'repr' if REPR.search(label) else 'value'


def category(prop, r, label):
    """Does this obligation express the property itself (or only support another)?"""
    want = CLOSURE[prop].get('kinds')
    if want is None:
        return True
    if isinstance(want, dict):
        want = want.get(r['group'], want.get('*'))
        if want is None:
            return True
    return kind_of_label(label) in want


# postconditions nobody assumes: those of the operations no caller's contract stands for
TOP = {m + w for m in ('mabs', 'mneg', 'mshift', 'madd', 'msub', 'maddsub', 'mmult', 'cabs', 'cneg', 'cshift', 'cadd', 'csub', 'caddsub', 'cmult') for w in ('', 'warn')}
POST = re.compile(r'within the range of the result format|nearest multiple|clipped to the|wrapped value|multiple of the LSB|exact result, rounded')


def unneeded(prop):
    """Obligations that another property's check discharges: value and range of the results of the operations above."""
    return lambda group, label: group in TOP and not label.startswith('for_') and bool(POST.search(label)) and not category(prop, {'group': group}, label)


def groups(*gs, pat=None, npat=None):
    def f(tier):
        out = []
        for g in sorted(gs, key=lambda g: HEAVY.index(g) if g in HEAVY else 99):
            for t in TASKS[g]:
                if t.tier > tier:
                    continue
                if tier == 0 and (pat and not re.search(pat, t.name)):
                    continue
                out.append(t)
        return out
    return f


def both(*fs):
    def f(tier):
        out, seen = [], set()
        for g in fs:
            for t in g(tier):
                if t.name not in seen:
                    seen.add(t.name)
                    out.append(t)
        return out
    return f


MAIN = ('mresize', 'mabs', 'mneg', 'mshift', 'madd', 'msub', 'maddsub', 'mmult')
CLS = ('cresize', 'cabs', 'cneg', 'cshift', 'cadd', 'csub', 'caddsub', 'cmult')
BASE = ('round', 'sat', 'mround', 'msat')
VAL = ('value',)
ONE_KIND = r'nd/nd|,nd,|,nd\]|round\[|saturate\[|resize\['

VHDL = ['the VHDL-2008 semantics assumed in /verif/vc/vhdl_parse.py, vhdl.py and vhdl_sim.py (interpretation of the source text of hdl/*.vhd, numeric_std and delta-cycle simulation)']

CLOSURE = {
    'C01': dict(tasks=groups('fmt', 'union')),
    'C02': dict(tasks=groups('fmtmin', 'union')),
    'C03': dict(tasks=groups('round', 'mround'), kinds=VAL),
    'C04': dict(tasks=groups('sat', 'msat'), kinds=VAL),
    'C05': dict(tasks=groups(*(BASE + MAIN + CLS)), kinds=VAL),
    'C06': dict(tasks=both(groups(*BASE), groups(*(MAIN + CLS + ('conv',)), pat=ONE_KIND)), kinds=('repr',)),
    'C07': dict(tasks=both(groups('round', 'sat', *CLS), groups('conv', pat='from_narrowfix')), kinds=VAL),
    'C08': dict(tasks=groups('cmp', 'round', 'sat', 'cresize'), kinds={'cmp': None, '*': ()}),
    'C09': dict(tasks=groups('inrange', 'round', 'sat', 'mround'), kinds={'inrange': VAL, '*': ()}),
    'C10': dict(tasks=groups('conv'), kinds=('value', 'repr')),
    'C11': dict(tasks=groups('real'), kinds=('value', 'repr'), assumptions=['the real number scaled by 2**F, and the bounds of the format, are finite normal doubles']),
    'C12': dict(tasks=groups('words'), kinds=('value', 'repr')),
    'C13': dict(tasks=both(groups('alias', 'fmt', 'union', *BASE), groups(*(MAIN + CLS + ('conv', 'real', 'inrange', 'cmp', 'words', 'gen')), pat=ONE_KIND)), kinds=('frame',)),
    'C14': dict(tasks=both(groups('satwarn', 'msatwarn', 'cresizewarn', 'realwarn', *[m + 'warn' for m in MAIN]), groups(*MAIN, pat='nd/nd.*default|nd,default')), kinds=('warn',)),
    'C15': dict(tasks=groups('gen')),
    'C17': dict(tasks=groups('vfmt'), oracle='vhdloracle', trusted=VHDL, assumptions=['format fields within +-2**28: no 32-bit VHDL integer then overflows (proved); unbounded fields are outside the language']),
    'C18': dict(tasks=groups('vfun'), oracle='vhdloracle', trusted=VHDL),
    'C19': dict(tasks=groups('vpipe'), cases=1300, oracle='vhdloracle', trusted=VHDL),
    'C20': dict(tasks=groups('vtext'), oracle='vhdloracle', trusted=VHDL),
    'C21': dict(tasks=groups('vreal'), oracle='vhdloracle', trusted=VHDL + ['VHDL real as IEEE double with exact power-of-two exponentiation 2.0**n'], assumptions=['the real number scaled by 2**F, and the powers of two used, are finite normal doubles', 'the saturation-warning modes of cl_fix_from_real only differ in reports, which are not observed']),
    'C16': dict(tasks=groups('reject'), assumptions=['acceptance of every valid request is an obligation of the tasks of the other properties as well (a raised error is a failed obligation there)']),
}

TRUSTED = [
    'the verification-condition generator and decision procedure in /verif/vc (poly.py, solver.py, engine.py)',
    'the Python/numpy semantics assumed in /verif/vc/npshim.py and /verif/vc/loader.py (cross-checked against CPython/numpy on concrete runs, not proved)',
    'CPython 3.12 and numpy executing the source as those semantics describe',
]
ASSUMPTIONS = [
    'binary exponents stay within the range of normal doubles (|I|, |F| up to about 900), so power-of-two scaling of doubles is exact',
    'arrays have at least one element; elementwise numpy operations act on each element alike (a generic element and a second, different element are tracked)',
    'numpy integer scalars and data are range-checked: an operation that could overflow fails an obligation (shift counts given as numpy integers are assumed below 2**62 in magnitude where the contract says so)',
    'operands are valid for their formats (on the grid and within the range), as the interface requires',
]
