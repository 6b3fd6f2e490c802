import crhcheck
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification CombinedSwitch.tla checked and enumerated with TLC; every behaviour replayed on the real CombinedRobotHW with scripted parts'
NOTE = 'Exhaustive for the bounded parts, claims and answers in the evidence. Trusts the pluginlib and ROS stubs.'
def check(prop): return crhcheck.check(prop)
