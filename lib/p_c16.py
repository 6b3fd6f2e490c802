import crhcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification CombinedInit.tla checked and enumerated with TLC; every behaviour replayed on the real CombinedRobotHW with scripted parts'
NOTE = 'Exhaustive for the bounded part lists in the evidence. Trusts the pluginlib and ROS stubs.'
def check(prop): return crhcheck.check(prop)
