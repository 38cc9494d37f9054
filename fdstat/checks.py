"""Which probe pairs and rules decide which property."""
import itertools
from .opaque import TARJAN
from . import rules

TV = ('the value graph of the implementation probe (library called through its public interface, loops summarised, '
      'paths merged) has the same normal form as that of the reference probe in spec/%s for symbolic inputs')
REAL = 'floating-point numbers are treated as exact reals (no rounding, overflow or NaN inputs)'
STD = 'the models of the C++ standard library in fdstat/stdmodel.py are right'
MEM = 'memory allocation succeeds'


def pairs(spec, names, **kw):
    return [dict(spec=spec, name=n, **kw) for n in names.split()]


OPQ = ['Opm::AssembledConnections::compress', 'Opm::FlowDiagnostics::TracerTofSolver::solveGlobal',
       'Opm::FlowDiagnostics::TracerTofSolver::solveLocal']


def combos(spec, names, flags, quick=None, **kw):
    """one pair per combination of the flags (quick: which combinations the quick tier keeps)"""
    out = []
    for n in names.split():
        for vs in itertools.product((True, False), repeat=len(flags)):
            fl = dict(zip(flags, vs))
            cfg = dict(kw.get('config') or {}, flags=fl)
            out.append(dict(kw, spec=spec, name=n, config=cfg, thorough=bool(quick and not quick(fl))))
    return out


TB = dict(opaque=OPQ)
SOLVE = dict(opaque=TARJAN, nonneg=('pv', 's'))       # where forms differ, pore volumes and sources >= 0 count
SEAL = dict(config=dict(seal=60))      # large results of one loop are names to the next one
COMP = dict(canon='components', **SEAL)     # where forms differ, the order of vertices and of unrelated components is free
OPAQT = ('the component search returns a valid order of the strong components (decided by C25 to C27)',
         'the flow graph is well formed: start pointers ascend, neighbours are cells, the second graph is the first one reversed')
OPAQ = ('compress, solveGlobal and solveLocal are functions of the values they are given (decided by C07 to C11, C16 to C18)',)
HISTORY = ['computed', 'computed other', 'new pv', 'new flux', 'new wells']


def quick_history(f):
    return (f['computed'] and f['computed other']) or \
        (f['computed'] != f['computed other'] and f['new pv'] + f['new flux'] + f['new wells'] == 1)


TVTECH = 'static value-graph equivalence (abstract interpretation with loop summaries, normal-form comparison)'
TVNOTE = ('Identity of normal forms covers every input of the modelled kind, under the listed assumptions (exact reals, '
          'models of the standard library, no allocation failure). Where a change leaves the normal forms different, a '
          'violation is reported only if some valuation of the two value graphs tells them apart; otherwise the pair is '
          'undecided and the run says so.')

HEAPNOTE = ('Ghost state (what is obtained, whether a request failed, whether something was misused) is part of the value '
            'graph; the reference is the constant verdict "nothing lost, kept, misused or silent". Identity covers every '
            'input and every combination of failing requests, under the listed assumptions.')

ALLOC = ('every request for memory made with malloc or calloc may fail, in any combination',
         'operator new and the containers of the standard library obtain their memory')


def tv(ps, rules=(), extra=(), technique=TVTECH, note=TVNOTE, mem=(MEM,)):
    files = sorted({p['spec'] for p in ps})
    return dict(technique=technique, note=note, pairs=ps, rules=list(rules), level='translation_validation', rule=TV % ', '.join(files),
                assumptions=[REAL, STD] + list(mem) + list(extra))


NOT_APPLICABLE = {
    'C31': 'a numerical identity over whole flow fields (partition of unity); follows from flux conservation by an '
           'inductive argument over the solve order and from rounding, which no static argument in reach can bound',
    'C32': 'termination of the sweeps depends on the contraction rate of the flow field, a runtime quantity',
    'C33': 'a theorem about the input data (positive fields), not about the code: C20 to C22 decide the formulas',
}

CHECKS = {
    'C01': tv(pairs('toolbox.cpp', 'graph_inj graph_prod', **TB), extra=OPAQ),
    'C02': tv(pairs('toolbox.cpp', 'hist_keep hist_order', **TB) +
              combos('toolbox.cpp', 'hist_inj hist_prod', HISTORY, quick_history, **TB), extra=OPAQ),
    'C03': tv(pairs('toolbox.cpp', 'rej_pv rej_flux rej_wells rej_lack_inj rej_lack_prod rej_keep', **TB) +
              combos('toolbox.cpp', 'rej_keep_wells', ['computed', 'direction'], **TB) +
              combos('toolbox.cpp', 'rej_keep_start', ['computed', 'direction', 'rejected direction'], **TB), extra=OPAQ),
    'C04': tv(pairs('toolbox.cpp', 'mirror', **TB), extra=OPAQ),
    'C05': tv(pairs('toolbox.cpp', 'src_inj src_prod one_inj one_prod', **TB), extra=OPAQ),
    'C06': tv(pairs('toolbox.cpp', 'many_inj many_prod', **TB), extra=OPAQ),
    'C07': tv(pairs('solver.cpp', 'global local', **SOLVE), extra=OPAQT),
    'C08': tv(pairs('solver.cpp', 'cap capl global local', **SOLVE), extra=OPAQT),
    'C09': tv(pairs('solver.cpp', 'gg lg gl ll', **SOLVE), extra=OPAQT),
    'C10': tv(pairs('solver.cpp', 'global local', **SOLVE), extra=OPAQT),
    'C11': tv(pairs('solver.cpp', 'global local', uncounted=True, **SOLVE), extra=OPAQT),
    'C12': tv(pairs('containers.cpp', 'sol sol_fresh sol_copy sol_copy2 sol_move sol_value sol_more sol_many')),
    'C13': tv(pairs('containers.cpp', 'cv_dims cv_zero cv_zero_mutable cv_rw cv_reject cv_copy')),
    'C14': tv(pairs('containers.cpp', 'cg_sizes cg_conn')),
    'C15': tv(pairs('containers.cpp', 'id id_default set set_empty set_copy')),
    'C16': tv(pairs('graph.cpp', 'accept failed', **SEAL)),
    'C17': tv(pairs('graph.cpp', 'csr plain', **SEAL)),
    'C18': tv(pairs('graph.cpp', 'again again_plain twice emptied', **SEAL)),
    'C19': tv(pairs('graph.cpp', 'row print')),
    'C25': tv(pairs('heap.cpp', 'none work search reach turn intact', alloc=True, **SEAL) +
              pairs('heap.cpp', 'global local', alloc=True, opaque=TARJAN) +
              pairs('tarjan.cpp', 'all from', **COMP) + pairs('tarjan.cpp', 'reverse', **SEAL), mem=ALLOC, note=HEAPNOTE),
    'C26': tv(pairs('tarjan.cpp', 'all from reuse', **COMP)),
    'C27': tv(pairs('tarjan.cpp', 'reverse', **SEAL)),
    'C28': tv(pairs('apart.cpp', 'turns_inj turns_prod store table2 ends named numbers', **TB), rules=(rules.shared_state, rules.outside),
              extra=OPAQ + ('accesses through a pointer computed from a number, and inline assembly, do not occur',)),
    'C29': tv(pairs('inputs.cpp', 'later_inj later_prod reload_inj reload_prod args_inj args_prod held set conn table curve graphs paired', **TB), extra=OPAQ),
    'C30': tv(pairs('random.cpp', 'normal mean standard index sequence second'), extra=(
        'the generators and distributions of the standard library are functions of their state and parameters',)),
    'C20': tv(pairs('derived.cpp', 'fphi fphi_default fphi_sol')),
    'C21': tv(pairs('derived.cpp', 'lorenz')),
    'C22': tv(pairs('derived.cpp', 'sweep')),
    'C23': tv(pairs('derived.cpp', 'pairvol')),
    'C24': tv(pairs('derived.cpp', 'pairflux')),
}
