import jlcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification Limits.tla checked, enumerated and simulated with TLC; every history replayed on the real Saturation handles and interfaces'
NOTE = 'Menus of limits and inputs; exhaustive for one and two steps, simulated beyond.'
def check(prop): return jlcheck.check(prop)
