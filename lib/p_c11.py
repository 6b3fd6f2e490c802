import cicheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification CtlInit.tla model checked with TLC; its behaviours (robots x controller classes x initialisation scripts x earlier uses) replayed on the real Controller/MultiInterfaceController and compared'
NOTE = 'Exhaustive for one initialisation after one earlier use on 27 robots and two initialisations on 4; longer histories sampled.'
def check(prop): return cicheck.check(prop)
