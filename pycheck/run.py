import importlib, os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OMP_WAIT_POLICY", "passive")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine

for f in sorted(os.listdir(HERE)):
    if f.startswith("p_") and f.endswith(".py"):
        importlib.import_module(f[:-3])
sys.exit(engine.main())
