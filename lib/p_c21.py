import trcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification Transmission.tla (exact rational arithmetic) checked, enumerated and simulated with TLC; every history of maps replayed on the real transmissions'
NOTE = 'Menus of reductions, offsets and data; compared with relative tolerance 1e-9.'
def check(prop): return trcheck.check(prop)
