import importlib, os, pkgutil
for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
    importlib.import_module("vlib.checks." + m.name)
