import importlib, os, glob
CHECKS = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), 'prop_*.py'))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    for k, v in vars(m).items():
        if isinstance(v, type) and getattr(v, 'id', '') and v.__module__ == m.__name__:
            CHECKS[v.id] = v
