import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"          # small matrices, one process per core

if "--tier" in sys.argv:
    _i = sys.argv.index("--tier")
    os.environ["VERIF_TIER"] = sys.argv[_i + 1]
    del sys.argv[_i:_i + 2]

from .runner import main  # noqa: E402

sys.exit(main())
