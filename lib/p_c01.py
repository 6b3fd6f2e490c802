import cicheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification Lifecycle.tla model checked with TLC; all its behaviours up to a bound (and random long ones) replayed on the real ControllerBase and compared step by step'
NOTE = 'Exhaustive request sequences up to the depth in the evidence on five controller classes; longer ones sampled. Hooks that throw are not covered.'
def check(prop): return cicheck.check(prop)
