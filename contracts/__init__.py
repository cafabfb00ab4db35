import importlib, os
for _m in sorted(os.listdir(os.path.dirname(__file__))):
    if _m.endswith('.py') and not _m.startswith('__'):
        importlib.import_module('contracts.' + _m[:-3])
