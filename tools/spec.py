"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/spec.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=True, na=None, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], claim=claim, na=na, technique=technique, note=note))

S = "src/"
T_DFS = "stateless model checking: exhaustive choice-tree exploration of the real code against a reference model"
T_BFS = "explicit-state model checking of the real code (choice tree with state-hash pruning) against a reference model"
NOTE = ("Every execution of the stated bounded alphabet is run on the real objects built from /repo and compared "
        "step by step with an independent reference model; nothing is said outside the alphabet/bounds. Trusts the model and the SPICE/NRLMSISE stand-ins.")

NOTESTS = "No existing test touches this code; the 118 tests cover only stateless helpers in the mathematics directories. "

# ------------------------------------------------------------------ simulation core
prop("S01", "Subsystems are stepped exactly at their own periods on a faithful clock",
 "For every admissible choice of simulation step, attitude/orbit/thermal/component update periods, log period, duration and start date, each update advances elapsed time by exactly one step, and the log flag rises exactly on updates whose elapsed time is a multiple of the log period and every other subsystem's flag rises exactly once per own period (a fixed phase, every step when the period equals the step), independently of the other periods. The finish flag rises exactly on updates whose elapsed time exceeds the duration. The reported Julian date, decimal year and UTC calendar date always denote the start date plus the elapsed time, across minute, day, month, leap-day and year boundaries.",
 ["configurations", "histories"], "all combinations of step and five period multipliers over a lattice, all update histories to a horizon of several periods, and start dates around every calendar boundary",
 NOTESTS + "A wrong counter reset or comparison only shows for particular ratios of periods after several periods.",
 ["src/environment/global/simulation_time.cpp", "src/math_physics/orbit/sgp4/sgp4ext.cpp"],
 [("per-subsystem counters and flags", "SimulationTime::UpdateTime"), ("calendar conversion", "SimulationTime::ConvJDtoCalendarDay, jday/invjday")],
 ["SimulationTime getters"], technique=T_DFS)
prop("S02", "Real-time mode paces simulated time by the wall clock and recovers from lag",
 "With a positive simulation speed every update returns at the wall-clock instant, counted from the last clock reset, at which real time multiplied by the speed reaches the new elapsed time (to the millisecond resolution of the clock), or at once when that instant has passed; with a speed of zero or below it never waits. Pacing changes no update flag and no simulated value, except that when an update is late and more than one second has passed since the last update that was in time, elapsed time is set to real time multiplied by the speed; it never jumps while the computer keeps up.",
 ["schedules", "inputs"], "all histories of computing times before each update up to a depth, for all speeds and steps of a lattice, under a virtual clock",
 NOTESTS + "Whether the pace is kept depends on the timing of every step, which a test run on one machine neither controls nor observes.",
 ["src/environment/global/simulation_time.cpp", "src/simulation/case/simulation_case.cpp"],
 [("pacing", "SimulationTime::UpdateTime"), ("clock reset", "SimulationTime::ResetClock"), ("settings", "InitSimulationTime")], ["simulation speed"], technique="exhaustive enumeration of computing-time schedules on the real code under a controlled virtual clock")
prop("S03", "Components run exactly on their own ticks and only while powered",
 "On every component-update instant the clock calls each registered component exactly once in registration order; a component's main routine runs exactly on ticks whose count is a multiple of its prescaler while its power port is on, and its power-off routine runs instead on those ticks while it is off. The same holds for the fast update and the fast prescaler, only for components that requested it. A component that has been destroyed or removed is never called again, and copies are ticked independently of the original.",
 ["histories", "configurations"], "all histories of tick, power on/off, create, copy and destroy operations over up to three components with prescalers 0..4, up to a depth",
 NOTESTS + "Scheduling depends on the whole history of registrations, destructions and power changes.",
 ["src/components/base/component.cpp", "src/environment/global/clock_generator.cpp", "src/components/ports/power_port.cpp"],
 [("tick dispatch", "ClockGenerator::TickToComponents"), ("prescaler and power gating", "Component::Tick/FastTick")], [], technique=T_BFS)
prop("S04", "A simulation run is a function of its settings and seed alone",
 "Running the sample simulation twice with the same settings and non-zero random seed produces byte-identical logs, whatever combination of disturbances, environment models, propagation modes and components is enabled and whatever was run before in the same process. Disabling only the logging of an element changes no value logged for the other elements, and changing only the log output period changes no value at the instants both logs contain.",
 ["configurations", "histories"], "all configurations of a lattice of model switches and modes, each executed twice (same process and fresh process)",
 NOTESTS + "No test runs a simulation, and reproducibility quantifies over pairs of whole runs in every configuration.",
 ["src/simulation/case/simulation_case.cpp", "src/simulation/spacecraft/spacecraft.cpp", "src/environment/global/global_environment.cpp", "src/math_physics/randomization/global_randomization.cpp"],
 [("seed initialisation", "GlobalEnvironment / global_randomization"), ("update order", "SimulationCase::Main, Spacecraft::Update")], ["log CSV"], technique="exhaustive enumeration of whole-simulation configurations with differential execution")
prop("S05", "Every log is a rectangular table written at its period",
 "In every configuration of enabled models and logging switches, the simulation log's header names exactly as many columns as every row has values, rows appear exactly at time zero and then once per log period until the end, the time column strictly increases, and each element contributes the columns it declares, in registration order, only when its logging is enabled. Every value is a complete, readable number or date.",
 ["configurations", "histories"], "all configurations of a lattice of propagation modes, model switches and logging switches; all short histories of logger operations (add, enable, disable, write)",
 NOTESTS + "Header and values are produced by two separate functions in some forty classes and only a run in each mode shows a mismatch.",
 ["src/logger/logger.cpp", "src/logger/log_utility.hpp", "src/logger/initialize_log.cpp", "src/simulation/case/simulation_case.cpp"],
 [("header/value collection", "Logger::WriteHeaders/WriteValues"), ("per-class columns", "GetLogHeader/GetLogValue")], ["log CSV"], technique="exhaustive enumeration of configurations and logger operation histories on the real code")
prop("S10", "Every log column carries the quantity, frame and unit its name declares",
 "In every state, the value an element logs under a column name equals the quantity of that name, in the frame, axis and unit the name declares, as the element's own interface and the other elements of the simulation give it at that instant. No two columns of one element have the same name, and columns carrying an element's number belong to the element of that number. The columns read by the plotting scripts of the repository exist under these names.",
 ["inputs", "configurations"], "all states of a lattice of places, attitudes and illumination, several updates each, for every class that writes a log",
 NOTESTS + "A swapped, mislabelled or wrongly scaled column looks plausible in any single run and spoils every analysis made from the log.",
 ["src/logger/log_utility.hpp", "src/dynamics/orbit/orbit.cpp", "src/dynamics/attitude/attitude.cpp", "src/environment/local/geomagnetic_field.cpp", "src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/gnss_receiver.cpp", "src/disturbances/air_drag.cpp"],
 [("column names and values", "GetLogHeader/GetLogValue"), ("name and axis formatting", "WriteScalar/WriteVector/WriteQuaternion")], ["log columns"], technique="exhaustive enumeration of element states on the real code with every log column compared by name")
prop("S06", "Settings files are read back exactly as written, with defined defaults",
 "For every well-formed settings file, reading a scalar, integer, boolean switch, string, vector, quaternion, array or list of strings returns exactly the values written under that section and key, ignoring comments, surrounding blanks and section order; an absent key yields the documented default and never the value of another section or key. Path placeholders are expanded to their directories, and a table file read with or without a header row returns every field in its row and column.",
 ["inputs", "configurations"], "all files assembled from a grammar of sections, keys, value spellings, comments and line endings, all read operations on each, and all table shapes up to a small size",
 NOTESTS + "Correctness depends on the text of the file, which no test supplies.",
 ["src/setting_file_reader/initialize_file_access.cpp", "ExtLibraries/inih/ini.c", "ExtLibraries/inih/cpp/INIReader.cpp"],
 [("typed readers", "IniAccess::Read*"), ("parser", "ini_parse_stream")], [], technique="exhaustive enumeration of grammar-generated files and read sequences against a reference model")
prop("S07", "Ground commands are encoded exactly as the command database defines",
 "For every command of the database and every argument of a supported numeric type, the encoded argument bytes are the big-endian two's-complement or IEEE representation of the given value, concatenated in the defined order with the defined sizes. Commands are issued from an operation file in order, wait lines delay the following command by the stated time, and comments and blank lines are skipped. Unknown commands, a wrong number of arguments and malformed or out-of-range arguments are rejected without emitting a packet, and the rest of the file is still issued.",
 ["inputs", "programs"], "all argument-type tuples up to length three with boundary values, all operation files up to a few lines over a line grammar",
 NOTESTS + "Encoding correctness quantifies over argument types, values and file layouts.",
 ["src/setting_file_reader/c2a_command_database.cpp", "src/setting_file_reader/wings_operation_file.cpp", "src/components/real/communication/wings_command_sender_to_c2a.cpp"],
 [("argument encoding", "CommandInformation / DecodeCommandArgument"), ("line sequencing", "WingsCommandSenderToC2a")], [], technique="exhaustive enumeration of command definitions, values and operation files against a reference encoder")
prop("S08", "Monte Carlo draws each parameter from its declared distribution once per run",
 "A Monte Carlo execution performs exactly the configured number of runs, in each of which every declared parameter gets a fresh value within its declared distribution's bounds and every undeclared parameter keeps its nominal value. When Monte Carlo is disabled all parameters keep their nominal values and exactly one run is executed. The same seed gives the same sequence of values, and vector, quaternion and per-object parameters reach exactly the object and name they were declared for.",
 ["configurations", "histories"], "all distribution types, dimensions, object/parameter declarations and run counts from a lattice, with every run of each execution",
 NOTESTS + "Depends on configuration and on the history of runs.",
 ["src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp", "src/simulation/monte_carlo_simulation/simulation_object.cpp"],
 [("run loop", "MonteCarloSimulationExecutor"), ("distributions", "InitializedMonteCarloParameters::Randomize")], [], technique=T_DFS)
prop("S09", "Random streams are reproducible, independent of each other and well scaled",
 "A random generator's output sequence is a function of its seed alone: equal seeds give equal sequences, re-initialising restarts the sequence, and interleaving draws from other generators changes nothing. Uniform outputs stay in the open unit interval and follow the minimal-standard multiplicative recurrence; normal outputs with given mean and standard deviation are the same standard-normal stream scaled and shifted, with no value lost or repeated. Random walks turn back at their limit and do not depend on other walks.",
 ["histories", "inputs"], "all interleavings of draws, re-seedings and parameter changes over two generators up to a depth, over a menu of seeds including boundary seeds",
 NOTESTS + "Quantifies over interleavings of generators.",
 ["src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp", "src/math_physics/randomization/normal_randomization.cpp", "src/math_physics/randomization/global_randomization.cpp", "src/math_physics/randomization/random_walk_template_functions.hpp"],
 [("recurrence", "MinimalStandardLcg"), ("Box-Muller pair cache", "NormalRand"), ("walk limits", "RandomWalk")], [], technique=T_BFS)

# ------------------------------------------------------------------ links
prop("L01", "Serial links deliver bytes in order, once, unmodified and per direction",
 "For every history of writes and reads on a serial port between the on-board computer and a component, the bytes read on one side are exactly the oldest unread bytes written on the other side, in order, without loss, duplication or corruption, as long as unread bytes stay below the buffer capacity. The two directions and different ports never interfere, short reads return what is available and report its length, and operations on unconnected ports report an error and change nothing.",
 ["histories", "inputs"], "all histories of writes and reads of several lengths in both directions on small buffers, including wrap-around of the buffer many times",
 NOTESTS + "Wrap-around errors need particular histories of read and write lengths.",
 ["src/utilities/ring_buffer.cpp", "src/components/ports/uart_port.cpp", "src/components/real/cdh/on_board_computer.cpp"],
 [("ring buffer pointers", "RingBuffer::Read/Write"), ("two ring buffers per port", "UartPort"), ("port map", "OnBoardComputer")], [], technique=T_BFS)
prop("L02", "Byte-stuffed framing is lossless for every payload",
 "For every payload, encoding it into a frame and decoding the frame returns the payload; the encoded body never contains the frame delimiter, and a complete frame starts or ends with the delimiters the framing defines. Decoding malformed input never reads outside the input.",
 ["inputs"], "all payloads over an alphabet with every reserved byte up to length seven, and all raw byte strings over the reserved alphabet up to length seven as decoder input",
 NOTESTS + "Escaping errors depend on where reserved bytes sit in the payload.",
 ["src/utilities/slip.cpp"], [("escape tables", "encode_slip/decode_slip")], [], technique="exhaustive enumeration of all inputs up to a length against a reference codec")
prop("L03", "Bus and GPIO accesses reach exactly the addressed device, register and pin",
 "For every history of register writes and reads by the on-board computer and by the target, a read of a register of a device returns the last value written to that register of that device, and nothing else changes; multi-byte transfers access consecutive registers in order, and command/telemetry frames stored on the bus are returned in order. A digital read of a pin returns the last value written to that pin, and unconnected devices, out-of-range registers and pins are rejected without side effects.",
 ["histories"], "all histories of read/write operations from both sides over two devices, a register set with boundary registers and several transfer lengths, up to a depth",
 NOTESTS + "Aliasing between devices and registers needs particular access histories.",
 ["src/components/ports/i2c_port.cpp", "src/components/ports/gpio_port.cpp", "src/components/real/cdh/on_board_computer.cpp", "src/components/base/i2c_target_communication_with_obc.cpp", "src/components/base/i2c_controller.cpp", "src/components/base/gpio_connection_with_obc.cpp"],
 [("register map keyed by device and register", "I2cPort"), ("OBC access", "OnBoardComputer::I2c*"), ("target adapter", "I2cTargetCommunicationWithObc")], [], technique=T_BFS)
prop("L04", "Component adapters exchange whole commands and telemetry with the computer",
 "A component that communicates over a serial link receives exactly the command bytes the on-board computer sent, in order and never mixed with bytes of other exchanges or stale data, whatever the lengths and offsets used and however the bytes are split across receptions. Telemetry the component sends reaches the computer unmodified. A request that does not fit the buffers is refused with an error and has no effect on memory or on later exchanges.",
 ["histories", "inputs"], "all histories of command sends, receptions with various offsets/lengths, telemetry sends and computer reads, up to a depth",
 NOTESTS + "Depends on the history of partial receptions.",
 ["src/components/base/uart_communication_with_obc.cpp", "src/components/examples/example_serial_communication_with_obc.cpp", "src/components/real/cdh/on_board_computer.cpp"],
 [("receive and send buffers", "UartCommunicationWithObc::ReceiveCommand/SendTelemetry")], [], technique=T_BFS)

prop("L05", "Hardware-in-the-loop adapters carry the same bytes as the simulated links",
 "With hardware ports in place of simulated ones, a component's commands are exactly the bytes that arrived on its own port in order, its telemetry reaches that port unchanged, and a request that does not fit is refused. A port is opened once with the requested settings, refused to a second user, and closed exactly when its owner ends; requests on a closed port are refused. An I2C target behaves as a register device: a one-byte command selects a register and consumes one stored frame, a two-byte command stores a value, and a reply holds the registers from the selected one on.",
 ["histories", "inputs"], "all histories of opening, closing, sending, incoming bytes and receptions over the port manager, the adapters and the example components, up to a depth",
 NOTESTS + "The hardware mode is not even compiled by the project's build on this platform.",
 ["src/simulation/hils/hils_port_manager.cpp", "src/components/ports/hils_i2c_target_port.cpp", "src/components/base/uart_communication_with_obc.cpp", "src/components/base/i2c_target_communication_with_obc.cpp", "src/components/base/i2c_controller.cpp", "src/components/examples/example_i2c_target_for_hils.cpp"],
 [("ports", "HilsPortManager"), ("registers", "HilsI2cTargetPort::Receive/Send")], [], technique=T_BFS)

# ------------------------------------------------------------------ power and thermal
prop("E01", "Power ports switch and account for consumption exactly by their supply voltage",
 "After every history of voltage changes, assumed-consumption changes and subtractions, a port is on exactly when its supply voltage is at least its (positive) minimum voltage, draws the current corresponding to its assumed power at its voltage while on, and draws zero while off; a port whose current reaches its limit trips to zero volt and off until a voltage is applied again. The power control unit delivers each port independently of the others, and connecting, re-connecting or closing ports affects only the named port.",
 ["histories"], "all histories of port operations over two ports and a lattice of voltages around the thresholds, up to a depth",
 NOTESTS + "The state depends on the order of voltage and load changes.",
 ["src/components/ports/power_port.cpp", "src/components/real/power/power_control_unit.cpp"],
 [("on/off update", "PowerPort::Update"), ("port map", "PowerControlUnit")], [], technique=T_BFS)
prop("E02", "Battery, solar array and initial-study power unit conserve energy within limits",
 "After every history of charge and discharge currents the battery's depth of discharge equals the initial value plus the accumulated discharge divided by capacity, and the battery voltage follows the configured discharge curve times the number of cells in series. The solar array's power is zero in eclipse or when the sun is behind the panel and otherwise proportional to sunlight, area, efficiency and cosine of incidence. The power unit's bus balances generated, consumed and battery power through the battery resistance on every tick, within the constant-current and constant-voltage charging limits.",
 ["histories", "inputs"], "all current sequences over a lattice up to a depth, all sun directions and illumination values of a lattice, all load scenarios",
 NOTESTS + "Depends on the history of currents.",
 ["src/components/real/power/battery.cpp", "src/components/real/power/solar_array_panel.cpp", "src/components/real/power/pcu_initial_study.cpp", "src/components/real/power/csv_scenario_interface.cpp"],
 [("state-of-charge integration", "Battery::UpdateDod"), ("panel power", "SolarArrayPanel::MainRoutine"), ("current control", "PcuInitialStudy")], [], technique=T_BFS)
prop("E03", "The thermal network exchanges heat symmetrically and obeys its node types",
 "In every network, over every update, boundary nodes keep their temperature, diffusive nodes change by the net heat they receive divided by their capacity, conductive and radiative exchange between two nodes is equal and opposite, and arithmetic nodes settle at their instantaneous balance. Without external loads the total heat of a closed network is conserved and temperatures stay within the initial range. Solar and earth-infrared inputs are proportional to area, absorptance or emissivity and the incidence cosine or view factor, finite for every geometry and zero for shaded or turned-away nodes.",
 ["configurations", "histories"], "all networks up to three or four nodes over a lattice of types, couplings and initial temperatures, several integration steps",
 NOTESTS + "Conservation must hold for every topology and step sequence.",
 ["src/dynamics/thermal/temperature.cpp", "src/dynamics/thermal/node.cpp"],
 [("differential equation", "Temperature::CalcTemperatureDifferentials"), ("integration", "Temperature::CalcRungeOneStep")], [], technique=T_DFS)
prop("E04", "Heaters regulate with hysteresis and heat loads follow their time table",
 "After every temperature history a heater is on or off exactly as its hysteresis control prescribes: it switches on only below the lower threshold, off only above the upper threshold, and otherwise keeps its state; its power equals the rated value when on and zero when off. A node's scheduled internal heat load at any elapsed time is the linear interpolation of its time table, repeated periodically, for every sequence of query times.",
 ["histories", "inputs"], "all temperature sequences over a lattice around both thresholds, all increasing query-time sequences over a lattice including table points and several periods",
 NOTESTS + "Hysteresis and table cursors depend on the history.",
 ["src/dynamics/thermal/heater_controller.cpp", "src/dynamics/thermal/heater.cpp", "src/dynamics/thermal/heatload.cpp"],
 [("hysteresis", "HeaterController::ControlHeater"), ("table cursor", "Heatload::SetElapsedTime_s")], [], technique=T_BFS)

# ------------------------------------------------------------------ actuators
prop("A01", "Reaction wheels obey their limits, delays and angular-momentum balance",
 "Under every command history a wheel's angular velocity never exceeds its limit, its output torque never exceeds its torque limit, a commanded torque takes effect exactly after the configured dead time (its whole number of steps, plus the update that samples the command) with the configured first-order lag, and the torque on the spacecraft is opposite to the change of the wheel's angular momentum along the wheel axis. A wheel switched off by drive flag or power produces no drive torque and coasts down by friction only, never reversing its rotation.",
 ["histories"], "all command sequences (torque levels including limits, drive flag and power toggles) up to a depth for several wheel configurations",
 NOTESTS + "Delays and limits are functions of the command history.",
 ["src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/reaction_wheel_ode.cpp", "src/math_physics/control_utilities/first_order_lag.hpp"],
 [("delay buffer and limits", "ReactionWheel::CalcTorque, SetTargetTorque"), ("wheel ODE", "ReactionWheelOde")], [], technique=T_DFS)
prop("A02", "Thrusters and ideal generators output exactly the bounded command, as a wrench",
 "For every command history the thrust equals duty (clamped to 0..1) times the maximum magnitude along the configured direction, is zero while power is off, and its torque is the lever arm from the current centre of mass crossed with the force. Ideal force and torque generators output the ordered vector, converted correctly between inertial, orbital and body frames for every attitude, and zero when unpowered; configured errors only perturb magnitude and direction by the configured standard deviations.",
 ["histories", "inputs"], "all sequences of duties, power changes and centre-of-mass positions over a lattice, all ordered vectors and attitudes of a lattice",
 NOTESTS + "Frames and clamping need particular combinations.",
 ["src/components/real/propulsion/simple_thruster.cpp", "src/components/ideal/force_generator.cpp", "src/components/ideal/torque_generator.cpp"],
 [("duty clamp and wrench", "SimpleThruster::CalcThrust/CalcTorque"), ("frame conversion", "ForceGenerator::MainRoutine")], [], technique=T_DFS)
prop("A03", "Magnetorquers produce m x B from the bounded commanded moment, without memory",
 "On every tick the magnetic moment realised by a magnetorquer is the most recent command clamped per axis to the configured range, passed once through scale, bias and noise, and its torque is that moment crossed with the current field in the body frame; with power off both are zero. Interference on the magnetometer is the configured polynomial of the present moment, removed exactly when the moment changes, so it never accumulates.",
 ["histories"], "all sequences of moment commands, power changes and field values over a lattice up to a depth",
 NOTESTS + "Accumulation errors only show over several ticks.",
 ["src/components/real/aocs/magnetorquer.cpp", "src/components/real/aocs/mtq_magnetometer_interference.cpp"],
 [("moment clamp and torque", "Magnetorquer::CalcOutputTorque"), ("bias bookkeeping", "MtqMagnetometerInterference::UpdateInterference")], [], technique=T_BFS)

# ------------------------------------------------------------------ sensors
prop("N01", "Sensors report scale x truth + bias + declared noise, clipped to their range",
 "For every truth history and configuration, gyroscopes, magnetometers and ideal observers report the true quantity in their own component frame with scale factor and constant bias applied once, quantised and clipped exactly as configured, with zero noise settings giving the noise-free value exactly. Powered-off sensors do not report fresh truth. Random errors of different sensors are independent and do not alter the truth.",
 ["configurations", "histories"], "all truth vectors, mounting attitudes, biases, scale factors and limits of a lattice, with several ticks and power changes",
 NOTESTS + "Quantifies over configurations and truth values around the limits.",
 ["src/components/base/sensor_template_functions.hpp", "src/components/real/aocs/gyro_sensor.cpp", "src/components/real/aocs/magnetometer.cpp", "src/components/ideal/angular_velocity_observer.cpp", "src/components/ideal/attitude_observer.cpp", "src/components/ideal/orbit_observer.cpp"],
 [("error model", "Sensor::Measure/Clip"), ("frame conversion", "GyroSensor/Magnetometer::MainRoutine")], [], technique=T_DFS)
prop("N02", "Star trackers report the delayed attitude and flag every forbidden condition",
 "Under every history a star tracker outputs, at its output interval, the attitude it had exactly the configured delay earlier, and with zero noise this is the true attitude of its frame. Its error flag is raised exactly when the sun, earth or moon is inside its forbidden angle or the body rate exceeds the capture limit, for every geometry.",
 ["histories", "inputs"], "all attitude histories over a small set up to a depth for all delay/interval settings of a lattice; all sun/earth/moon geometries of a lattice around the forbidden angles",
 NOTESTS + "The delay line is a function of history and the judgement of geometry.",
 ["src/components/real/aocs/star_sensor.cpp"], [("delay buffer", "StarSensor::Update/Measure"), ("judgement", "StarSensor::AllJudgement")], [], technique=T_DFS)
prop("N03", "Sun sensors see the sun exactly inside their field of view and when lit",
 "For every sun direction, distance and illumination, a sun sensor reports detection exactly when the sun is within its configured field of view in its own frame and sunlight reaches it, its reported angles and direction match the true sun direction in its frame up to the configured errors, and without detection it reports no direction. Its output depends only on the present tick.",
 ["inputs", "histories"], "all sun directions of a spherical lattice, all mountings, illumination levels and two-step histories",
 NOTESTS + "Quantifies over geometry.",
 ["src/components/real/aocs/sun_sensor.cpp"], [("detection", "SunSensor::SunDetectionJudgement"), ("measurement", "SunSensor::Measure")], [], technique=T_DFS)
prop("N04", "GNSS receivers and satellite tables report consistent positions and visibility",
 "For every receiver position and constellation geometry, the receiver counts exactly the satellites that are inside its antenna cone and not blocked by the earth, reports a fix exactly when enough are visible, and with zero noise its position, velocity and geodetic coordinates equal the spacecraft's. Satellite positions and clocks queried at any time inside the product span agree with the tabulated values at the tabulated epochs for every satellite, and queries before the loaded span or for absent satellites are rejected.",
 ["inputs", "configurations"], "all antenna directions and satellite placements of a lattice; all tabulated epochs and satellites of generated product files",
 NOTESTS + "Quantifies over geometry and product files.",
 ["src/components/real/aocs/gnss_receiver.cpp", "src/environment/global/gnss_satellites.cpp", "src/math_physics/gnss/sp3_file_reader.cpp", "src/math_physics/orbit/interpolation_orbit.cpp"],
 [("visibility", "GnssReceiver::CheckAntenna*"), ("interpolation", "GnssSatellites::GetPosition_*")], [], technique=T_DFS)
prop("N05", "Telescopes flag bodies in view and list exactly the visible catalogue stars",
 "For every attitude and body geometry a telescope flags the sun, earth and moon as inside its forbidden angles exactly when the angle to its sight line is below the limit, reports image coordinates only for bodies inside its field of view, and lists the brightest catalogue stars inside its field in order of brightness, never more than requested.",
 ["inputs"], "all sight-line directions of a lattice, all small star catalogues",
 NOTESTS + "Quantifies over geometry and catalogues.",
 ["src/components/real/mission/telescope.cpp", "src/environment/global/hipparcos_catalogue.cpp"],
 [("forbidden angles", "Telescope::JudgeForbiddenAngle"), ("star search", "Telescope::ObserveStars")], [], technique=T_DFS)

prop("N06", "GNSS bias and antenna calibration products are read exactly as written",
 "For every well-formed Bias-SINEX product the reader returns every record of its solution once and in order, with the kind, satellite, station, signal pair, unit, bias, slope and both deviations written in it, whatever comments, headings and other sections surround it. For every well-formed antenna calibration each antenna is filed under its satellite in file order with its own type, validity, frequencies, offsets and variation row, and angles are assigned to the nearest grid node. Satellite numbers and indices denote each other uniquely over all systems.",
 ["inputs"], "all small products over alphabets of records, sections and antennas, every grid and query angle of a lattice, all satellite numbers",
 NOTESTS + "Existing tests read one example product each.",
 ["src/math_physics/gnss/bias_sinex_file_reader.cpp", "src/math_physics/gnss/antex_file_reader.cpp", "src/math_physics/gnss/gnss_satellite_number.cpp"],
 [("record columns", "BiasSinexFileReader::ReadBiasSolution"), ("antenna blocks", "AntexFileReader::ReadAntexData"), ("nearest node", "AntexGridDefinition::CalcClosestZenithIndex")], [], technique=T_DFS)

# ------------------------------------------------------------------ mathematics and time
prop("M01", "Calendar, epoch, GPS and Julian time representations denote the same instant",
 "Converting any instant between calendar date-time, epoch seconds, GPS week/seconds, day of year and Julian date and back yields the same instant, with fields always normalised to their ranges. Adding, subtracting and comparing epoch times agrees with exact arithmetic on seconds and fractions, including every carry and borrow, and a difference added back gives the original instant.",
 ["inputs"], "every day of all supported years, boundary seconds of each, and all sums/differences over a lattice of seconds and fractions",
 "Existing tests check a handful of dates; the claims are for every date and every carry.",
 ["src/math_physics/time_system/date_time_format.cpp", "src/math_physics/time_system/epoch_time.cpp", "src/math_physics/time_system/gps_time.cpp", "src/math_physics/orbit/sgp4/sgp4ext.cpp"],
 [("day counting", "DateTime"), ("carry", "EpochTime::operator+/-")], [], technique="exhaustive enumeration of all dates and carry cases against a reference calendar")
prop("M02", "Rotation representations are interchangeable and act consistently on vectors",
 "For every rotation, converting between quaternion, direction-cosine matrix and Euler angles and back gives the same rotation, the forward and inverse frame conversions are exact inverses and preserve length, composition matches successive application, conjugation is inversion, and a normalised quaternion stays unit. The representation obtained never depends on which of the two equivalent signs the quaternion has.",
 ["inputs"], "all rotations of a lattice that includes half-turns, gimbal-lock angles and all sign branches, all pairs for composition",
 "Existing tests check a few rotations; conversions branch on the largest component and on singular angles.",
 ["src/math_physics/math/quaternion.cpp"], [("branches on the largest component", "Quaternion::ConvertFromDcm"), ("frame conversion", "Quaternion::FrameConversion")], [], technique="exhaustive enumeration of a rotation lattice and all its pairs against an independent rotation model")
prop("M03", "Numerical kernels are exact on the problem classes they are built for",
 "Every offered integrator reproduces exactly (to rounding) solutions that are polynomials up to its order, with results independent of how a span is split into steps for such problems, and the dense output of the embedded methods agrees with it within and at both ends of a step. Linear solves and inverses reproduce the identity for every well-conditioned matrix of any size including those that need row exchanges, matrix products, transposes and traces follow their definitions for every shape, and polynomial (trigonometric) interpolation reproduces every polynomial below its degree (every resolvable sine) at every query point, also after sliding the window. Angles between vectors are finite and correct for every pair including parallel ones, and angle wrapping keeps the angle.",
 ["inputs", "histories"], "all integrator methods with polynomial right-hand sides and step sequences of a lattice; all small integer matrices; all node sets and degrees of a lattice",
 "Existing tests check single problems and matrices; pivoting and step histories are not enumerated.",
 ["src/math_physics/numerical_integration/runge_kutta_template.hpp", "src/math_physics/math/matrix_vector_template_functions.hpp", "src/math_physics/math/interpolation.cpp"],
 [("Butcher tables", "RungeKutta*"), ("LU with pivoting", "LuDecomposition/CalcInverseMatrix"), ("interpolation", "Interpolation")], [], technique="exhaustive enumeration of methods, step sequences and small matrices against exact solutions")

prop("M04", "Beam, lag, quantization and byte-order blocks obey their defining laws",
 "A Gaussian beam carries its whole power through every cross-section, is narrowest at the waist, and has the radius and intensity of its present wavelength, waist and power, in whatever order these were set. A first-order lag follows every input history with implicit steps of its time constant and gain, without overshoot, and is at zero after a reset. A quantized number is the multiple of the resolution next to it toward zero at every magnitude, and a byte-order copy reverses exactly the given number of bytes and touches no others.",
 ["inputs", "histories"], "all parameter sets of a lattice, all input histories to a depth, all small sizes and alignments",
 "No unit tests exist for these blocks.",
 ["src/math_physics/optics/gaussian_beam_base.cpp", "src/math_physics/control_utilities/first_order_lag.hpp", "src/utilities/quantization.cpp", "src/utilities/endian.cpp"],
 [("beam", "GaussianBeamBase::CalcIntensity_W_m2"), ("lag", "FirstOrderLag::Update"), ("copy", "endian_memcpy")], [], technique=T_DFS)

# ------------------------------------------------------------------ orbit and frames
prop("O01", "Orbital elements and Cartesian states describe the same orbit",
 "For every elliptic orbit, converting position and velocity to orbital elements and propagating from those elements returns the original state at the same instant, and the elements recovered from a state along the orbit equal the original elements in their quadrants. Two-body propagation by elements conserves energy and angular momentum, returns to the same state after one period, and satisfies Kepler's equation for every eccentricity and anomaly.",
 ["inputs"], "a full lattice of semi-major axis, eccentricity, inclination, node, perigee argument and anomaly covering all quadrants",
 NOTESTS + "Quadrant and convergence errors only show in part of the element space.",
 ["src/math_physics/orbit/orbital_elements.cpp", "src/math_physics/orbit/kepler_orbit.cpp"],
 [("element extraction", "OrbitalElements::CalcOeFromPosVel"), ("Kepler equation", "KeplerOrbit::SolveKepler*")], [], technique="exhaustive enumeration of an orbital-element lattice against an independent two-body model")
prop("O02", "Every orbit propagation mode follows the equations of motion it declares",
 "In every propagation mode and for every initialisation mode, the spacecraft state at each update instant is the solution of the declared dynamics from the declared initial state, independent of how often updates happen: numerical and perturbation-based propagation agree with the analytic two-body solution without disturbances, constant accelerations displace it by the analytic amount, and tabulated trajectories pass through every tabulated point. Position, velocity, earth-fixed and geodetic outputs always describe the same point, and acceleration inputs are consumed once.",
 ["configurations", "histories"], "all propagation and initialisation modes, integration steps and update-interval sequences of a lattice, several orbits",
 NOTESTS + "Modes interact with update intervals and histories.",
 ["src/dynamics/orbit/orbit.cpp", "src/dynamics/orbit/rk4_orbit_propagation.cpp", "src/dynamics/orbit/encke_orbit_propagation.cpp", "src/dynamics/orbit/kepler_orbit_propagation.cpp", "src/dynamics/orbit/relative_orbit.cpp", "src/dynamics/orbit/time_series_file_orbit_propagation.cpp", "src/dynamics/orbit/sgp4_orbit_propagation.cpp", "src/dynamics/orbit/initialize_orbit.cpp"],
 [("step to the update instant", "Rk4OrbitPropagation::Propagate"), ("rectification", "EnckeOrbitPropagation::Propagate"), ("mode selection", "InitOrbit")], [], technique=T_DFS)
prop("O03", "Earth frames, sidereal time and geodetic coordinates are mutually consistent",
 "For every instant and rotation mode the inertial-to-earth-fixed transformation is a proper rotation equal to its defining sequence, and sidereal time advances at the sidereal rate. Converting any point between earth-fixed and geodetic coordinates and back returns the same point including at the poles, the equator, the date line and orbital altitudes, and a point's local east-north-up or radial frame is a right-handed orthonormal frame.",
 ["inputs", "configurations"], "a full lattice of latitudes, longitudes and altitudes including singular ones; a lattice of instants and all rotation modes",
 NOTESTS + "Quantifies over all points and instants.",
 ["src/math_physics/geodesy/geodetic_position.cpp", "src/environment/global/earth_rotation.cpp", "src/environment/global/moon_rotation.cpp", "src/math_physics/planet_rotation/moon_rotation_utilities.cpp"],
 [("iteration", "GeodeticPosition::UpdateFromEcef"), ("precession/nutation/sidereal", "EarthRotation")], [], technique="exhaustive enumeration of a coordinate/time lattice against an independent model")
prop("O04", "Formation relative states are antisymmetric and match the absolute states",
 "After every update, for every pair of spacecraft the relative position, velocity, distance and attitude reported equal those computed from the two absolute states, are antisymmetric under exchange, and registering or removing spacecraft in any order never changes the data of other pairs. A spacecraft propagated relative to a reference reproduces its initial relative state and its absolute state is the reference state plus the relative state.",
 ["histories", "configurations"], "all registration/removal/update histories over up to three spacecraft, all relative models of a lattice",
 NOTESTS + "Depends on registration history and pairs.",
 ["src/simulation/multiple_spacecraft/relative_information.cpp", "src/dynamics/orbit/relative_orbit.cpp", "src/math_physics/orbit/relative_orbit_models.cpp"],
 [("pair lists", "RelativeInformation::Update"), ("relative propagation", "RelativeOrbit::Propagate")], [], technique=T_BFS)

# ------------------------------------------------------------------ attitude
prop("T01", "Rigid-body attitude motion conserves momentum and integrates torque exactly once",
 "For every inertia, initial state, wheel momentum and torque history the attitude quaternion stays unit, inertial angular momentum (body plus wheels) changes only by the applied torque impulse, and rotational energy is conserved without torque. The state at a given instant does not depend on how the interval to it is divided into updates, attitude and angular velocity satisfy the kinematics, and a flexible appendage with zero coupling leaves the rigid motion unchanged.",
 ["histories", "configurations"], "all torque sequences over a lattice up to a depth, inertia tensors with cross terms, all divisions of an interval into updates",
 NOTESTS + "Conservation must hold for every state and step history.",
 ["src/dynamics/attitude/attitude_rk4.cpp", "src/dynamics/attitude/attitude.cpp", "src/dynamics/attitude/attitude_with_cantilever_vibration.cpp", "src/dynamics/attitude/ode_attitude_with_cantilever_vibration.hpp"],
 [("Euler equation", "AttitudeRk4::AttitudeDynamicsAndKinematics"), ("step loop", "Propagate")], [], technique=T_DFS)
prop("T02", "Controlled attitude points its main axis at the target in every mode",
 "For every controlled-attitude mode, pointing axis pair and geometry of sun, earth and orbit, the resulting attitude is a proper rotation that points the main body axis exactly at the main target and brings the sub axis as close as possible to the sub target, and inertial stabilisation keeps the given attitude. The reported angular velocity, angular momentum, kinetic energy and control torque are those of the attitude actually flown between updates.",
 ["configurations", "inputs"], "all pairs of modes, axis pairs of a lattice and geometries of a lattice, with several updates",
 NOTESTS + "Quantifies over modes and geometry.",
 ["src/dynamics/attitude/controlled_attitude.cpp"], [("frame construction", "ControlledAttitude::CalcDcm/PointingControl")], [], technique=T_DFS)

prop("T03", "Forces and torques on a spacecraft move it once, in the update they arise",
 "In every spacecraft update the motion is driven by exactly the sum of the forces, torques and accelerations that its enabled disturbances and its components generate in that update, each counted once: body-frame forces are turned into the inertial frame by the attitude at the start of the update and divided by the mass of that moment. Nothing remains from earlier updates or comes from another spacecraft. Components run, and interfere with each other, once per update, after the local environment is updated and before their forces and torques are collected and the motion is propagated.",
 ["histories", "configurations"], "all histories of component forces and torques up to a depth, with every combination of update periods, disturbances and mass changes, and pairs of histories of two spacecraft",
 NOTESTS + "Quantifies over histories of several spacecraft.",
 ["src/simulation/spacecraft/spacecraft.cpp", "src/dynamics/dynamics.hpp", "src/dynamics/orbit/orbit.hpp", "src/simulation/spacecraft/installed_components.hpp"],
 [("update order", "Spacecraft::Update"), ("force and torque entry", "Dynamics::AddForce_b_N/AddTorque_b_Nm/ClearForceTorque")], [], technique=T_DFS)

# ------------------------------------------------------------------ disturbances and environment
prop("D01", "Total disturbance is the sum of the enabled disturbances, none leaking",
 "For every subset of enabled disturbances the total force, acceleration and torque equal the sum of what each enabled disturbance produces on its own in the same state; a disabled disturbance contributes nothing and its settings are irrelevant, and all contributions are finite from the first step on whatever the update periods are. Acceleration-type and force-type disturbances are each counted once, and body-frame and inertial-frame quantities are never mixed.",
 ["configurations", "histories"], "all subsets of disturbances, several states and update histories",
 NOTESTS + "Quantifies over subsets and histories of updates.",
 ["src/disturbances/disturbances.cpp", "src/disturbances/disturbance.hpp", "src/simulation/spacecraft/spacecraft.cpp"],
 [("summation", "Disturbances::Update"), ("enable switch", "Disturbance::UpdateIfEnabled")], [], technique="exhaustive enumeration of disturbance subsets and states with a differential oracle")
prop("D02", "Drag and radiation pressure act on exactly the exposed faces",
 "For every attitude, flow or sun direction and surface set, each flat face contributes force and torque exactly when it faces the flow or sun, according to the declared specular/diffuse/absorbed or drag model, with torque taken about the centre of mass; faces turned away contribute nothing. Forces vanish in eclipse or without atmosphere, are finite for every geometry including exact alignment, scale linearly with pressure or density, and drag never has a component along the motion.",
 ["inputs"], "all directions of a spherical lattice including exact face normals and edges, all small surface sets and property values of a lattice",
 NOTESTS + "Exact alignments and grazing incidence are not sampled.",
 ["src/disturbances/surface_force.cpp", "src/disturbances/air_drag.cpp", "src/disturbances/solar_radiation_pressure_disturbance.cpp"],
 [("per-face loop", "SurfaceForce::CalcTorqueForce"), ("incidence angles", "SurfaceForce::CalcTheta")], [], technique=T_DFS)
prop("D03", "Gravity, gravity-gradient and magnetic disturbances follow their field laws",
 "For every position, attitude and inertia the gravity-gradient torque is 3 mu/r^3 times the local vertical crossed with inertia times the local vertical; third-body acceleration is the difference of point-mass attractions at spacecraft and centre, summed over the configured bodies; spherical-harmonic gravity is the gradient of its potential in the body-fixed frame rotated back, with coefficients read from the file for every degree up to the limit; residual-moment torque is the moment crossed with the field.",
 ["inputs", "configurations"], "lattices of positions, attitudes, inertia tensors, body sets and coefficient files/degrees",
 "Only the spherical-harmonic kernel has unit tests, at a few points.",
 ["src/disturbances/gravity_gradient.cpp", "src/disturbances/third_body_gravity.cpp", "src/disturbances/geopotential.cpp", "src/disturbances/lunar_gravity_field.cpp", "src/disturbances/magnetic_disturbance.cpp", "src/math_physics/gravity/gravity_potential.cpp"],
 [("torque law", "GravityGradient::CalcTorque_b_Nm"), ("difference of attractions", "ThirdBodyGravity::CalcAcceleration"), ("coefficient reading", "Geopotential::ReadCoefficients*")], [], technique=T_DFS)
prop("V01", "Sunlight is full in the open, absent in umbra and continuous in between",
 "For every geometry of sun, spacecraft and occulting bodies (each much nearer than the sun) the coefficient of sunlight left by one body lies in 0..1, is 1 when its disc does not overlap the sun disc, 0 when it covers it, and otherwise the uncovered area fraction of the sun disc (annular geometry included), and the coefficients of several bodies multiply. Solar radiation pressure is the solar constant over light speed at one astronomical unit scaled by the inverse square of the sun distance times this coefficient, and keeps its initial value when its calculation is disabled. Earth albedo flux is the albedo factor times the solar power density at the spacecraft, earth infrared flux is the Stefan-Boltzmann constant times the fourth power of the configured hot (sunlit) or cold (shaded) temperature, and both only when enabled.",
 ["inputs", "configurations"], "a lattice of sun/occulter/spacecraft geometries from full sun through penumbra and annulus to umbra including exact alignment, all body lists",
 NOTESTS + "Exact alignments and disc tangencies are singular cases a sample misses.",
 ["src/environment/local/solar_radiation_pressure_environment.cpp", "src/environment/local/earth_albedo.cpp", "src/environment/local/earth_infrared.cpp"],
 [("disc overlap", "SolarRadiationPressureEnvironment::CalcShadowCoefficient")], [], technique=T_DFS)
prop("V02", "Celestial positions are relative to the right observer in the right frame",
 "At every update and for every selected-body list and centre body, positions and velocities of each body from the centre equal the ephemeris answer for exactly that body and instant, body-name and index lookups agree, and a body that is not selected is reported as zero, never as another body. Positions and velocities from the spacecraft equal centre-relative ones minus the spacecraft's, and body-frame versions are the rotated inertial ones with the transport term for the rotating frame.",
 ["configurations", "inputs"], "all body lists and centres of a lattice against a controllable ephemeris, all attitudes and spacecraft states of a lattice, several updates",
 NOTESTS + "These files are not even compiled by the tests.",
 ["src/environment/global/celestial_information.cpp", "src/environment/local/local_celestial_information.cpp"],
 [("index arithmetic", "CelestialInformation::UpdateAllObjectsInformation"), ("frame conversion", "LocalCelestialInformation::ConvertVelocityInertialToBody")], [], technique=T_DFS)
prop("V03", "Atmosphere and magnetic-field environments are finite, positive and switchable",
 "For every position, time and enabled model the air density is finite, non-negative, falls with altitude (up to the rounding of the tabulated constants) and follows the selected model's table or law, and is zero when disabled. The magnetic field equals the reference-field value at the spacecraft's geodetic position and date rotated into inertial and body frames, decays with altitude, and is zero when disabled; configured noise perturbs the value actually reported everywhere and zero noise changes nothing.",
 ["inputs", "configurations"], "lattices of altitudes (including table ends), latitudes, longitudes, dates and attitudes for each model",
 NOTESTS + "Table ends and singular positions are not sampled.",
 ["src/environment/local/atmosphere.cpp", "src/math_physics/atmosphere/harris_priester_model.cpp", "src/math_physics/atmosphere/simple_air_density_model.cpp", "src/environment/local/geomagnetic_field.cpp", "src/math_physics/geomagnetic/igrf.cpp"],
 [("table interpolation", "CalcAirDensityWithHarrisPriester_kg_m3"), ("field evaluation", "IgrfCalc"), ("frame rotation", "GeomagneticField::CalcMagneticField")], [], technique=T_DFS)

prop("G01", "Ground-station visibility and link budget follow the geometry",
 "For every station and satellite position the station sees the satellite exactly when its elevation above the local horizon is above the configured minimum, for every station, spacecraft and frame rotation. The achievable bit rate of a visible satellite is the one at which the link closes with the required margin, from the actual distance, attitude and antenna mountings, and zero when it cannot close or is hidden. Antenna gains are those of the configured pattern at a grid point next to the actual direction, in every direction.",
 ["inputs", "configurations"], "lattices of station coordinates, satellite directions around the elevation limit, distances and antenna patterns",
 NOTESTS + "Quantifies over geometry.",
 ["src/simulation/ground_station/ground_station.cpp", "src/components/real/communication/ground_station_calculator.cpp", "src/components/real/communication/antenna.cpp", "src/components/real/communication/antenna_radiation_pattern.cpp"],
 [("elevation test", "GroundStation::CalcIsVisible"), ("budget", "GroundStationCalculator::CalcMaxBitrate"), ("pattern lookup", "AntennaRadiationPattern::GetGain_dBi")], [], technique=T_DFS)
prop("G02", "A spacecraft's mass properties change only by the operations applied to it",
 "After every history of structure updates, the mass, centre of mass and inertia used by dynamics and disturbances equal the initial values plus exactly the applied changes, values out of range are refused without effect, and surfaces, inertia and residual moment read from settings are those configured, with unit normals.",
 ["histories", "configurations"], "all histories of parameter changes over a lattice up to a depth, all small structure files",
 NOTESTS + "Depends on operation history.",
 ["src/simulation/spacecraft/structure/kinematics_parameters.cpp", "src/simulation/spacecraft/structure/structure.cpp", "src/simulation/spacecraft/structure/initialize_structure.cpp"],
 [("incremental update", "KinematicsParameters::Add*")], [], technique=T_BFS)

prop("X01", "Environment models agree with physical reference data",
 "Magnetic field, atmosphere, gravity and ephemeris values agree with published reference data over the whole continuous domain.",
 ["inputs"], "all positions and times", "Needs external reference data and kernels.", ["src/environment", "src/math_physics"], [("models", "src/math_physics")],
 claim=False, na="Agreement with external reference data over a continuous domain is a statistical/numerical validation question, not a bounded exploration of behaviours; the reference data, SPICE kernels and NRLMSISE library are also absent offline.")
prop("X02", "Hardware-in-the-loop ports relay bytes to the real serial devices in time",
 "Bytes exchanged with a real device through a hardware-in-the-loop serial or bus port arrive unmodified and in order within one component tick.",
 ["schedules", "fault_sequences"], "all device timings", "Needs the Windows/.NET serial stack.", ["src/components/ports/hils_uart_port.cpp", "src/utilities/com_port_interface.cpp"], [("ports", "HilsUartPort")],
 claim=False, na="The code is C++/CLI (gcnew, System::IO::Ports) and compiles only with MSVC on Windows with real COM ports; no execution can be explored here.")

def main():
    built = {f[:-4] for f in os.listdir(os.path.join(ROOT, "harness")) if f.endswith(".cpp")}
    only = lambda p: p["claim"] and p["id"] in built
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/build.py --setup", checks=[], not_applicable=[],
             notes="No hooks are needed in /repo: harnesses drive public interfaces; SPICE and NRLMSISE-00, absent offline, are replaced by controllable stand-ins in /verif/stubs.")
    for p in P:
        if only(p):
            m["checks"].append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                                    evidence_file=f"evidence/{p['id']}.json", technique=p["technique"] or T_DFS, level="model_checking",
                                    level_note=p["note"] or NOTE))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties", len(m["checks"]), "claimed")
main()
