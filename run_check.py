#!/usr/bin/env python3
"""run_check.py <property id>: run one property's check against /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
from vmon import harness
TABLE = {
    'C01': ('checks.w_ops', 'check'),
    'C02': ('checks.residual', 'check'),
    'C03': ('checks.dt_eqs', 'check'),
    'C04': ('checks.eT_python', 'check_rhs'),
    'C05': ('checks.eT_python', 'check_lhs'),
    'C07': ('checks.full_cc', 'check_theory'),
    'C08': ('checks.full_cc', 'check_convention'),
    'C09': ('checks.full_cc', 'check_flags'),
    'C10': ('checks.latex_fcc', 'check'),
    'C11': ('checks.latex_zhz', 'check'),
    'C12': ('checks.latex_eT', 'check'),
    'C13': ('checks.latex_w', 'check'),
    'C06': ('checks.eT_python', 'check_flags'),
    'C14': ('checks.determinism', 'check'),
    'C15': ('checks.truncs', 'check'),
    'C16': ('checks.cli', 'check'),
    'C17': ('checks.latex_doc', 'check'),
    'C18': ('checks.hotband', 'check'),
    'C19': ('checks.pipeline', 'check'),
    'C20': ('checks.python_doc', 'check'),
    'C21': ('checks.concurrent_requests', 'check'),
    'C22': ('checks.faults', 'check'),
    'C23': ('checks.helpers', 'check'),
    'C24': ('checks.residual_text', 'check'),
}
if __name__ == '__main__':
    prop = sys.argv[1]
    mod, fn = TABLE[prop]
    mod = importlib.import_module(mod)
    sys.exit(harness.run(getattr(mod, fn), prop))
