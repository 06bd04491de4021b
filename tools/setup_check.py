"""Nothing to build: checks run the Python sources in /repo directly.  Only
make sure the interpreter and libraries they need are there."""
import os
import sys
sys.path.insert(0, '/repo')
os.environ['WAKET_DISABLE_CACHING'] = '1'
import numpy, scipy, numba, h5py, openpmd_api  # noqa
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'numba',
      numba.__version__)
