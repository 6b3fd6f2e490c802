#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
CM = "controller_manager/src/controller_manager.cpp"
CMH = "controller_manager/include/controller_manager/controller_manager.h"
CB = "controller_interface/include/controller_interface/controller_base.h"
RH = "hardware_interface/include/hardware_interface/robot_hw.h"
IM = "hardware_interface/include/hardware_interface/internal/interface_manager.h"
RM = "hardware_interface/include/hardware_interface/internal/resource_manager.h"
HRM = "hardware_interface/include/hardware_interface/internal/hardware_resource_manager.h"
CRH = "combined_robot_hw/src/combined_robot_hw.cpp"
JL = "joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h"
JLR = "joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h"
JLU = "joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h"
TI = "transmission_interface/include/transmission_interface/"
TS = "transmission_interface/src/"

prop("C01", "Controller lifecycle hooks follow the state machine",
 "A controller that has not been initialised refuses every start, stop, wait and abort request and none of its hooks run; once initialised, each such request runs exactly the matching hook once with the given time, succeeds, and leaves the controller in exactly the matching state. The periodic update hook runs if and only if the controller is running when an update is requested, with the time and period given. At every moment a controller reports exactly one of constructed, initialised, running, stopped, waiting, aborted.",
 ["histories"], "every sequence of init/start/stop/wait/abort/update requests on a controller",
 "Existing unit tests follow a handful of fixed request sequences; the state space of sequences is unbounded and includes requests from every state.",
 [CB, "controller_interface/include/controller_interface/controller.h", "controller_interface/include/controller_interface/multi_interface_controller.h"],
 [("state_", "lifecycle state of one controller", CB)],
 [("startRequest/stopRequest/waitRequest/abortRequest/updateRequest", CB)], ["hook invocations and isX() predicates of a controller"])

prop("C02", "Every update cycle updates each running controller exactly once, in order",
 "In every control cycle each controller that is running at the start of the cycle has its update hook called exactly once, in the order the controllers were loaded, with the cycle's time and period, and no other controller is updated; any switch is carried out only after all those updates, so a controller started in a cycle is first updated in the next one. When the cycle asks for a reset, every running controller is first stopped and started again, before any update, and no other controller is touched.",
 ["histories", "schedules"], "every history of loads, unloads, switches and cycles, and every interleaving of the cycle with API calls",
 "Tests run one or two controllers in a single hand-written schedule.",
 [CM], [("controllers_lists_/current_controllers_list_/used_by_realtime_", "lists of loaded controllers", CMH)],
 [("ControllerManager::update", CM)], ["controller hooks invoked during an update cycle"])

prop("C03", "No two running controllers ever hold the same resource",
 "After any history of requests and cycles, no resource is claimed by two controllers that are both running, unless the robot hardware's own conflict check permits it. The conflict check is asked, before a switch is accepted, about exactly the set of controllers that will be running once it completes, and a reported conflict refuses the switch.",
 ["histories", "schedules", "inputs"], "every history of start/stop requests (any lists, either strictness, any hardware answer) and every interleaving",
 "Tests try two or three specific conflicting pairs.",
 [CM, RH], [("start_request_/stop_request_", "pending switch", CMH)],
 [("switchController resource check", CM), ("checkForConflict", RH)], ["arguments and result of the conflict check; set of running controllers"])

prop("C04", "Switch requests are admitted exactly as their strictness prescribes",
 "A strict request is refused if it names an unloaded controller, stops one that is not running, or starts one that already is; a best-effort request drops such entries and applies the rest as if they had not been named. The hardware is asked to prepare, and later told to perform, a switch with exactly the controllers that will really be started and really be stopped, each once; a request that would both start and stop the same running controller, that conflicts on resources, or that the hardware declines to prepare is refused.",
 ["inputs", "histories"], "every start list, stop list (including unknown, repeated and overlapping names), strictness, reachable controller states and hardware answers",
 "Tests sample a few start/stop lists; the combinations of states, lists and hardware answers are not covered.",
 [CM], [("switch_start_list_/switch_stop_list_", "lists handed to the hardware", CMH)],
 [("switchController", CM)], ["return value, prepareSwitch/doSwitch arguments, hooks invoked"])

prop("C05", "An accepted switch is executed once, completely, and in the right order",
 "For an accepted switch the hardware is told to switch exactly once, from the control cycle; then every controller to stop is stopped, and only afterwards are controllers started: all together once the hardware reports the switch done, or, with start-as-soon-as-possible, each one once the hardware reports its own part done. While the hardware is still switching, pending controllers are told to wait each cycle; if it reports an error or the given timeout elapses, those not yet started are aborted instead; the call returns success only after every pending controller has been started or aborted.",
 ["histories", "fault_sequences", "schedules"], "every sequence of hardware answers (ongoing, done, error) per cycle and per controller, timeouts, request shapes",
 "hwi_switch_test drives a few fixed answer sequences.",
 [CM], [("switch_params_", "state of the switch in progress", CMH)],
 [("manageSwitch, stopControllers, startControllers, startControllersAsap", CM)], ["doSwitch, switchResult calls, controller hooks, return of the switch call"])

prop("C06", "Refused or failed requests leave no trace",
 "A load, unload or switch request that reports failure without having been carried out changes nothing: the set, order and states of loaded controllers are as before, no controller hook runs, the hardware is not switched either then or in any later cycle, and the next request behaves as if the failed one had never been made. This includes failures by exception during construction or initialisation, and a switch that gives up because no control cycle served it in time.",
 ["histories", "fault_sequences"], "every request that fails, at every point it can fail, followed by every later request",
 "Tests check the returned failure, rarely what happens afterwards.",
 [CM], [("switch_params_, start_request_, stop_request_", "pending switch", CMH)],
 [("early-return paths of loadController/unloadController/switchController", CM)], ["subsequent hooks, listing, later requests"])

prop("C07", "Loading and unloading keep a faithful, uniquely named, ordered controller list",
 "A load succeeds exactly when no loaded controller has that name, the name has a configured type offered by a registered loader (earliest registered loader that offers it), and the controller's initialisation succeeds; it is then appended in the initialised state. An unload succeeds exactly when a controller of that name is loaded and not running, and removes exactly that one, destroying it; lookup by name and the controller list always agree with the successful loads minus the successful unloads, in load order, and a name can be loaded again after unloading.",
 ["histories", "fault_sequences"], "every sequence of load/unload/switch requests, with faults in construction and initialisation",
 "Tests use short fixed sequences.",
 [CM, "controller_manager/include/controller_manager/controller_loader.h"], [("controllers_lists_", "loaded controllers", CMH)],
 [("loadController, unloadController, getControllerByName", CM)], ["return values, getControllerByName, list service, construction and destruction of controllers"])

prop("C08", "The control cycle never touches a controller or list being reclaimed",
 "However the control cycle interleaves with loads, unloads and switches, a cycle never invokes a controller that has been unloaded and destroyed, and no controller is destroyed and no list modified while a cycle that may use it is in progress. Unloading a controller returns success only after no cycle can use it any more; a load or unload always completes once the control loop performs a further cycle.",
 ["schedules"], "every interleaving of the control thread with API calls, down to individual shared-memory accesses",
 "Tests run with real threads and sleeps, and never force a specific interleaving.",
 [CM], [("used_by_realtime_", "list in use by the control thread", CMH), ("current_controllers_list_", "current list", CMH)],
 [("double-buffered lists and wait loops", CM)], ["destruction of controllers relative to cycle boundaries, memory errors"])

prop("C09", "Concurrent requests behave as if made one after another",
 "When several threads call load, unload, switch, lookup and the services at the same time, the outcome of every call and the resulting controller states equal those of some sequential order of the calls. In particular a switch in progress is neither cancelled nor altered by another call, and reports success only if its own start and stop lists were carried out.",
 ["schedules"], "every interleaving of two or more API callers and the control thread",
 "Tests call the API from one thread at a time.",
 [CM], [("controllers_lock_, services_lock_", "API serialisation", CMH)],
 [("lock_guard in each API function", CM)], ["call/return history of concurrent callers, hooks"])

prop("C10", "The service interface reports and does what it says",
 "Listing controllers returns exactly the loaded controllers in load order with their type, current state name and the resources claimed at initialisation per hardware interface; listing types returns every type each registered loader offers together with that loader's name. Load, unload and switch services return exactly the outcome of the corresponding operation on exactly the requested arguments; reloading libraries is refused while controllers are loaded unless forced, and when forced stops running controllers, unloads all, and only then reloads every loader.",
 ["histories", "inputs"], "every reachable controller set and state, every request",
 "cm_test samples single requests and needs a ROS master.",
 [CM, "controller_manager_msgs/srv"], [("services", "service handlers", CM)],
 [("*Srv methods", CM)], ["service responses"])

prop("C11", "Controllers get the interfaces they ask for and claims are exact",
 "Initialising a controller succeeds only from the never-initialised state, when every required hardware interface is provided by the robot and the controller's own initialisation accepts; optional interfaces may be missing. During its initialisation the controller sees exactly the interfaces it declared (and the robot has), the claims reported are exactly the resources whose handles it obtained during this initialisation, one entry per declared interface present, and claims left over from any earlier use of the interfaces are neither reported nor kept afterwards.",
 ["configurations", "histories"], "every set of declared interfaces, robot interfaces, handle accesses during init, and order of initialising several controllers on one robot",
 "Tests use two or three controller types with fixed interfaces.",
 ["controller_interface/include/controller_interface/controller.h", "controller_interface/include/controller_interface/multi_interface_controller.h", "controller_interface/include/controller_interface/internal/robothw_interfaces.h"],
 [("claims of the hardware interfaces", "resources claimed since last clear", HRM)],
 [("initRequest, populateInterfaces, populateClaimedResources, clearClaims, hasRequiredInterfaces", "controller_interface/include/controller_interface/internal/robothw_interfaces.h")], ["claimed_resources, controller state, get<T>() inside init"])

prop("C12", "Interface lookup reflects exactly what was registered",
 "Looking up a hardware interface type on a robot returns nothing if it was never registered, the registered object itself if there is exactly one, and otherwise (several across nested managers) a single interface exposing every resource of all of them, with handle access and claims applied to it. The list of registered interface names, the resources reported per interface, and lookups stay consistent after any sequence of registrations, including re-registration of the same type and nesting of managers.",
 ["histories", "configurations"], "every sequence of registering interfaces and nested managers, and lookups",
 "Tests register one or two interfaces once.",
 [IM], [("interfaces_, interfaces_combo_, interface_managers_, resources_", "registry", IM)],
 [("registerInterface, registerInterfaceManager, get, getNames, getInterfaceResources", IM)], ["get<T>(), getNames(), getInterfaceResources()"])

prop("C13", "Resource handles are found by name and claims follow the claim policy",
 "After any sequence of registrations, looking up a name returns the handle most recently registered under it, an unknown name raises an error naming it, and the list of names is exactly the set of names ever registered. A lookup of an existing handle adds its name to the interface's claim set exactly when the interface is of a claiming kind and never otherwise, failed lookups claim nothing, and clearing empties the set without affecting the handles.",
 ["histories"], "every sequence of register/lookup/clear operations",
 "Tests use fixed short sequences.",
 [RM, HRM, "hardware_interface/include/hardware_interface/hardware_interface.h"], [("resource_map_", "name to handle", RM), ("claims_", "claimed names", "hardware_interface/include/hardware_interface/hardware_interface.h")],
 [("registerHandle/getHandle/getNames/concatManagers", RM), ("ClaimResources/DontClaimResources", HRM)], ["getHandle, getNames, getClaims"])

prop("C14", "Handles are well-formed and pass data straight through",
 "A joint, actuator or mode handle can only be constructed when every data location it requires is given, otherwise construction raises an error (naming the joint or actuator); a sensor handle may lack any of its data and then says so. A constructed handle always reads the current value of exactly the location it was given for each quantity and writes commands to exactly the location of that command, never to another; optional quantities report availability truthfully.",
 ["inputs", "histories"], "every handle type, every combination of missing data locations, every sequence of reads and writes",
 "Tests check a few missing-pointer combinations and single reads/writes.",
 ["hardware_interface/include/hardware_interface/joint_state_interface.h", "hardware_interface/include/hardware_interface/joint_command_interface.h", "hardware_interface/include/hardware_interface/actuator_state_interface.h", "hardware_interface/include/hardware_interface/actuator_command_interface.h", "hardware_interface/include/hardware_interface/posvel_command_interface.h", "hardware_interface/include/hardware_interface/posvelacc_command_interface.h", "hardware_interface/include/hardware_interface/position_velocity_torque_gains_command_interface.h", "hardware_interface/include/hardware_interface/joint_mode_interface.h", "hardware_interface/include/hardware_interface/force_torque_sensor_interface.h", "hardware_interface/include/hardware_interface/imu_sensor_interface.h"],
 [], [("handle constructors and accessors", "hardware_interface/include/hardware_interface")], ["exceptions at construction, accessor values, raw data"])

prop("C15", "The default conflict check finds exactly the doubly-claimed resources",
 "For any list of controllers the default conflict check reports a conflict if and only if some resource name is claimed more than once: by two of the listed controllers, on whatever interfaces, or by one of them on two of its interfaces. The answer does not depend on the order of the list or on how controllers and interfaces are called.",
 ["inputs"], "every list of controllers with any claimed resources on any interfaces",
 "robot_hw_test samples a few lists.",
 [RH], [], [("RobotHW::checkForConflict", RH)], ["return value"])

prop("C16", "A combined robot is the sum of its parts",
 "A combined robot initialises successfully exactly when its list of hardware names is configured and every listed hardware can be loaded and initialised in its own namespace, and it then exposes every interface and resource of every part. Each read and write is forwarded exactly once to every part, in configured order, with the same time and period.",
 ["configurations", "fault_sequences"], "every list of parts, every failing part and failure point, every cycle",
 "Tests use one fixed set of four robots.",
 [CRH], [("robot_hw_list_", "parts", CRH)], [("init, loadRobotHW, read, write", CRH)], ["init result, get<T>(), parts' read/write"])

prop("C17", "Combined robots route switching to the parts concerned",
 "When a switch is prepared or performed on a combined robot, each part receives exactly those controllers, reduced to exactly those claimed interfaces and resources, that concern it, and preparation succeeds only if every part accepts. The combined switch result is never better than its parts': an error in any part is reported as an error and an unfinished part keeps the combined result unfinished, both overall and for the controller concerned.",
 ["inputs", "configurations", "fault_sequences"], "every set of parts and claims, every combination of part answers",
 "Tests check one filtering example and no combined result.",
 [CRH, RH], [], [("filterControllerList, prepareSwitch, doSwitch, switchResult", CRH)], ["arguments received by parts; results"])

prop("C18", "Saturated commands never leave the joint limits",
 "For every history of commands and every joint state, enforcing saturation limits leaves a command that already satisfies the limits (and, for rate-limited quantities, is reachable within the period) unchanged, and otherwise replaces it by the nearest admissible value: positions within position limits and within max velocity times period of the previous command, velocities within max velocity and max acceleration, efforts within max effort and not pushing further past a violated position or velocity limit. Missing limit definitions required by a handle are rejected at construction, enforcing an interface applies to every registered handle, and reset forgets the previous command. When range and rate cannot both be met the result lies between the two conflicting bounds, and a NaN command has no effect on the limits of later ones.",
 ["inputs", "histories"], "every limit set, joint state, period and command history",
 "Tests check a few points; previous-command memory makes the behaviour history dependent.",
 [JL], [("prev_cmd_/prev_pos_/prev_vel_", "memory of saturation handles", JL)], [("*JointSaturationHandle::enforceLimits", JL)], ["command value after enforceLimits"])

prop("C19", "Soft limits bound velocity and effort as the joint nears its limits",
 "Where both can be met, soft-limit handles never let a command exceed the hard limits, bound the commanded velocity (or the position change, or effort) by the proportional law of distance to the soft limit (and of velocity error for effort), so that beyond a soft limit only motion back towards the allowed range is permitted, and leave commands within those bounds unchanged. The bound at every step depends only on the joint state, limits, period and, for position commands, the previously enforced command.",
 ["inputs", "histories"], "every limit set, soft-limit set, joint state, period and command history",
 "Tests check a few points only.",
 [JL], [("prev_cmd_", "memory of soft-limit handles", JL)], [("*JointSoftLimitsHandle::enforceLimits", JL)], ["command value after enforceLimits"])

prop("C20", "Limits loaded from parameters and URDF are exactly those specified",
 "Loading joint limits from the parameter server or a URDF joint changes exactly the limit fields that the source specifies and leaves the others as they were, a has-limits flag that is switched off disables the limit and incomplete specifications are ignored; the result says whether anything was specified. Soft limits are changed only as a whole, when every one of their fields is present, and newly made limits limit nothing.",
 ["inputs", "configurations"], "every subset and value of the limit parameters, every URDF joint kind, every prior content",
 "Tests check five example joints.",
 [JLR, JLU], [], [("getJointLimits, getSoftJointLimits", JLR), ("getJointLimits, getSoftJointLimits", JLU)], ["returned flag and filled structure"])

prop("C21", "Transmission maps match their equations and are mutual inverses",
 "For every valid simple, differential and four-bar transmission and every data vector, the actuator-to-joint and joint-to-actuator maps of effort, velocity and position, and the absolute-position and torque-sensor maps, give the documented equations, and mapping one way and back returns the original values. Each map reads only its own quantity, writes only its own output, and for simple and differential transmissions effort times velocity is conserved.",
 ["inputs", "configurations"], "every reduction and offset (also negative), every data vector, every map",
 "Unit tests check identity round trips at random points and a few white-box cases, none for torque sensors or absolute encoders.",
 [TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h"], [], [("actuatorToJoint*/jointToActuator*", TI + "simple_transmission.h")], ["output data"])

prop("C22", "Transmission handles reject malformed data and propagate exactly what they hold",
 "A transmission handle is constructed exactly when the transmission exists, some position, velocity or effort data is given, and every actuator and joint data vector that is not empty has the transmission's size and holds no null pointer; otherwise construction raises an error. Propagating a handle, or a whole interface, applies exactly its own map to exactly the registered transmissions, once each, leaving all other data untouched.",
 ["inputs", "histories"], "every combination of missing, null and wrongly sized data, every handle type, every set of registered transmissions",
 "Tests cover part of the handle types and malformed inputs.",
 [TI + "transmission_interface.h"], [], [("TransmissionHandle constructor, propagate", TI + "transmission_interface.h")], ["exceptions, raw data after propagate"])

prop("C23", "Transmission descriptions are parsed faithfully and invalid ones skipped",
 "Parsing a robot description yields exactly the well-formed transmissions in document order, each with its name, type, joints (name, role, hardware interfaces) and actuators (name, hardware interfaces) as written and their XML preserved; a malformed transmission is skipped without affecting the others. Parsing succeeds exactly when the document is well formed and has a root element; results are added after those already in the list, and a failed parse adds none.",
 ["inputs"], "every document built from well-formed and malformed transmissions in any order and number",
 "Tests check six fixed documents.",
 [TS + "transmission_parser.cpp"], [], [("TransmissionParser::parse", TS + "transmission_parser.cpp")], ["parse result"])

prop("C24", "Transmission plugins build exactly the described transmission or nothing",
 "Loading a simple, differential or four-bar transmission from its description succeeds exactly when it has the right number of actuators and joints, the required reductions are numbers and non-zero, and roles are present, valid and distinct where required; the resulting transmission has exactly the described reductions and offsets, attached to the actuator and joint having that role. In every other case nothing is returned and no error escapes.",
 ["inputs", "configurations"], "every description with missing, repeated, invalid or permuted roles, reductions, offsets and dimensions",
 "Tests check one valid and a few invalid files per type.",
 [TS + "simple_transmission_loader.cpp", TS + "differential_transmission_loader.cpp", TS + "four_bar_linkage_transmission_loader.cpp", TS + "transmission_loader.cpp"], [], [("TransmissionLoader::load", TS + "transmission_loader.cpp")], ["returned transmission"])

prop("C25", "Loaded transmissions connect joint and actuator spaces end to end",
 "After loading a set of transmissions for a robot, each joint named in a transmission appears in the joint interfaces its hardware interfaces ask for, propagating state makes exactly its transmission image visible at the joint, and propagating commands delivers exactly the transmission image of the joint command to its actuators. Loading fails without escaping errors when a plugin, actuator interface or actuator needed is missing or a hardware interface is unknown, joints already provided are not duplicated, and different joints never share data.",
 ["configurations", "histories"], "every set of transmissions, joint interfaces, available actuator interfaces, data values",
 "Tests load four example files.",
 [TS + "transmission_interface_loader.cpp", TS + "joint_state_interface_provider.cpp", TS + "effort_joint_interface_provider.cpp", TS + "position_joint_interface_provider.cpp", TS + "velocity_joint_interface_provider.cpp"], [("raw_joint_data_map_", "joint data owned by the loader", TI + "transmission_interface_loader.h")], [("TransmissionInterfaceLoader::load", TS + "transmission_interface_loader.cpp")], ["load result, robot interfaces, raw data after propagate"])

prop("C26", "Command-line tools issue the right requests and undo them on exit",
 "The spawner waits for the manager and its topic, loads every named controller (from the command line or a file, once its parameters are set) in order, starts strictly and only those that loaded unless told not to, and on shutdown at any point stops those it loaded that are running and then unloads all of them in reverse order, loading nothing more; the unspawner keeps exactly the named controllers stopped and on exit restarts exactly those it asked to stop. The group tool switches by loading missing members, starting those not running and stopping running members of other groups only, in one strict request, abandoning the switch when a load fails, and lists every group with its members; the command tool performs the named command on each argument in order, restores what was loaded before a library reload when asked to, and reports failures as failures. Several instances of a tool run side by side without ending one another.",
 ["histories", "fault_sequences", "inputs"], "every argument list, controller state, group table and every pattern of failing requests",
 "There is no test without a running ROS master, and those cover one happy path.",
 ["controller_manager/scripts/spawner", "controller_manager/scripts/unspawner", "controller_manager/scripts/controller_group", "controller_manager/scripts/controller_manager", "controller_manager/src/controller_manager/controller_manager_interface.py"], [("loaded", "controllers loaded by the spawner", "controller_manager/scripts/spawner")], [("main, shutdown", "controller_manager/scripts/spawner")], ["service calls issued"])

prop("C27", "Controller queries find exactly the matching managers and controllers",
 "Searching for controller managers returns the sorted namespaces that expose every controller manager service with the right type, each once; entries of an initial guess stay exactly as long as their listing service is there. Filtering a controller list by name, type, state, hardware interface or resources returns exactly the matching entries in order, each once. Parameter lookup returns exactly the sorted names having a controller type directly beneath the given namespace.",
 ["inputs", "configurations"], "every set of services and types, controller lists, filter arguments and parameter trees",
 "Tests use one fixed list and one fixed set of services.",
 ["controller_manager_msgs/src/controller_manager_msgs/utils.py"], [], [("get_controller_managers, filter_by_*, get_rosparam_controller_names", "controller_manager_msgs/src/controller_manager_msgs/utils.py")], ["returned lists"])

prop("C28", "Transmissions reject invalid configuration",
 "Constructing a simple, differential or four-bar transmission with a zero reduction, or with reduction or offset vectors of the wrong length, raises an error, and every other configuration is accepted and reported back unchanged, together with the right number of actuators and joints and truthful support flags for absolute encoders and torque sensors.",
 ["inputs", "configurations"], "every vector length up to several elements and zero placed at every position",
 "Tests sample a few invalid vectors.",
 [TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h"], [], [("constructors", TI + "simple_transmission.h")], ["exceptions and accessors"])

prop("C29", "The graphical front end shows and commands exactly the selected manager",
 "The rqt front end offers exactly the controller managers that are up and keeps the chosen one selected, and chosen again when reopened, as long as it is up. After each refresh it shows, whatever states the manager reports, exactly the selected manager's controllers in order with their states, followed by the configured controllers of its namespace that are not loaded, each once; running ones look different from the others, and details show a controller's type and claims. Choosing a menu entry asks the selected manager, also one that has restarted, exactly what the entry names for that controller, in order, whatever changed while the menu was open; nothing else is ever asked of any manager.",
 ["histories", "configurations"], "every history of managers, controllers, configurations and user actions, including changes while a menu is open",
 "There are no tests of the front end.",
 ["rqt_controller_manager/src/rqt_controller_manager/controller_manager.py", "rqt_controller_manager/src/rqt_controller_manager/update_combo.py"], [("_controllers", "controllers shown", "rqt_controller_manager/src/rqt_controller_manager/controller_manager.py")], [("_update_cm_list, _update_controllers, _on_cm_change, _on_ctrl_menu", "rqt_controller_manager/src/rqt_controller_manager/controller_manager.py")], ["combo box, table, requests"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
