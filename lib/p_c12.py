import hwcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification (Interfaces.tla) checked and exhaustively enumerated with TLC; every enumerated behaviour replayed on the real headers and compared with the outcome the specification prescribes'
NOTE = 'Bounded exhaustive in the specification (bounds in the evidence); the real code runs with address and undefined-behaviour sanitizers. Trusts the stub ROS headers.'
def check(prop): return hwcheck.check(prop)
