"""checks that everything the checks need is importable (nothing is built)"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy, pandas, scipy

import sx.run, sx.sym, sx.props
import z3
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pandas', pandas.__version__)
