import trcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification TransConf.tla checked and enumerated with TLC; every configuration replayed on the real constructors'
NOTE = 'Vector lengths 0..3 over a menu of values including both zeros and extremes.'
def check(prop): return trcheck.check(prop)
