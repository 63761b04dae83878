ORACLE = {
"S01": "A counter model in exact integer arithmetic (steps since start) gives the instants at which each flag must rise and the elapsed time; the calendar oracle is a day-by-day walk of the proleptic calendar, independent of Julian-day formulas.",
"S02": "A reference of real time: the wall instant at which each update is due (elapsed time over speed), the instants at which updates really return, and the last one in time. Every read of the clock and every sleep of the process is interposed (clock_gettime, gettimeofday, nanosleep, clock_nanosleep, usleep), so the explorer is the scheduler of time; an unpaced twin gives the flags and values that pacing must not change.",
"S03": "A list model of registered components with their prescalers and power state; the expected sequence of MainRoutine / FastUpdate / PowerOffRoutine calls is compared exactly after every tick. Histories are pruned by the abstract state (registered set, counters modulo prescaler, power).",
"S04": "Two-run oracle: logs of the same configuration from fresh processes with differently poisoned memory, after other runs in the same process, with subsets of loggers off, and with other log periods must agree column by column.",
"S05": "Tables are parsed back: every row has the columns of its header, rows are at the log period, header order equals value order - checked by reading each value through the public getter of the object at the logged instant (`times`), by the names and units of the header, and by block permutations.",
"S06": "A reference parser of the documented grammar. Files are generated field by field from an alphabet of spellings (spacing, comments, case, missing keys, malformed numbers).",
"S07": "A reference encoder of the command database format (big-endian integers, IEEE reals, strings, raw) and a model of the operation-file interpreter (which line executes at which instant). The bytes emitted are compared exactly.",
"S08": "Moments and bounds of every distribution with fixed seeds; a model of declared parameters; for `campaign`, the log of each run of a Monte Carlo campaign is compared byte for byte with the log of a plain simulation of the value that the summary file says was drawn.",
"S09": "The Lehmer recurrence in 128-bit arithmetic over the complete cycle (2^31-2 states in the thorough tier); streams of interleaved generators equal the streams of the same generators used alone.",
"S10": "Every ILoggable class is read through its header: the table column name -> value must equal the quantity of that name from the element's interface, from other elements or from closed formulas (rpm from rad/s, i/b/rtn/c rotations, unit conversions, total heat from its parts); a column that the specification does not know, a missing or a double one is a violation.",
"L01": "One FIFO queue per direction. All histories of writes and reads whose lengths straddle the wrap points, pruned by (read index, write index, content class).",
"L02": "A reference encoder of the SLIP framing; decode(encode(x)) = x for every payload over the alphabet of reserved and neighbouring bytes; raw decoding of every byte string over it never reads outside and never yields reserved bytes.",
"L03": "A map (port, address, register) -> byte with per-device pointers, and a map pin -> level. All histories of connect, read, write, destroy over two buses and devices with adjacent addresses.",
"L04": "Two FIFO queues and the component's own counter; offset and length of every call are enumerated including zero, negative and beyond the buffers; guard bytes around the buffers must stay untouched.",
"L05": "The sources are compiled with USE_HILS in the harness with a recorder in place of the Windows serial class. Oracle: the bytes on the recorded wire equal the bytes the same history exchanges over the simulated link; port open/close is a set model; the I2C target answers from its register file exactly as the simulated one.",
"E01": "State machine (off / on / tripped) of a port with exact current and power accounting; control unit as a map from port to state.",
"E02": "Energy bookkeeping: stored charge is the integral of the current, limited to capacity; CC/CV rules for the charge current and the terminal voltage from the open-circuit table; array power from incidence, illumination and the declared cell arrangement; bus power balance in every update.",
"E03": "An independent network solver in the harness (RK4 on the declared equations): energy added equals heat in minus radiated; exchange between two nodes is antisymmetric; boundary and arithmetic nodes obey their own rules.",
"E04": "A hysteresis automaton per heater and a piecewise linear table reader per load, exact.",
"A01": "A wheel model: dead time as a queue, first-order lag in closed form per step, limits, coasting friction; momentum balance torque = -J dw/dt. Jitter: the recorded force/torque must be the sum of the configured harmonics at the wheel's angle, the structural filter against an independent difference equation.",
"A02": "Queue for the dead time, clamped duty, lever arm cross product for the wrench, direction errors as unit-preserving rotations; statistics for the declared noise.",
"A03": "moment = scale x clamped command + bias; torque = m x B with B from the field model at that place and attitude.",
"N01": "truth read through the public getters, transformed with the declared frame, scale, bias, quantisation, clip; noise by moments over fixed seeds per component prescaler; random walks by increments and limit.",
"N02": "A delay line of attitudes; forbidden flag recomputed from geometry (sun, earth limb, moon limb, rate) on both sides of every limit.",
"N03": "Field-of-view and illumination predicate from geometry; the two incidence angles from the component-frame sun direction.",
"N04": "Visibility from lines of sight, antenna cone and earth sphere; tables against an independent SP3 reader and trigonometric interpolation of synthetic products whose true position is known in closed form; the global environment must present all of them at the time of the present update.",
"M04": "Closed-form beam, numerical integral over the cross-section, implicit Euler difference equation, exact arithmetic on multiples, reversed array.",
"N06": "The records the product was generated from; a product file is written for every path.",
"N05": "Pinhole image model and an exhaustive scan of the synthetic catalogue.",
"M01": "Integer day and 128-bit fraction arithmetic, every day 1970-2099 against a walking calendar.",
"M02": "Rodrigues matrices in the harness; all rotations of lattices of axes, angles and Euler triples, all pairs for composition.",
"M03": "Closed-form solutions: triangular polynomial systems (integrators), rational linear systems (matrices), polynomials and trigonometric polynomials up to the declared degree (interpolation).",
"O01": "Independent conversion element -> state and conserved quantities; Kepler's equation by bisection.",
"O02": "Two-body closed form; a Dormand-Prince reference integrator with the same external acceleration; time-series against independent interpolation; SGP4: an independent implementation in lib/ref (near-earth and deep-space), itself validated against the published vectors of elements 88888, 11801 and 00005, plus history independence and d(position)/dt = velocity.",
"O03": "Independent precession/nutation/sidereal-time series, iterative geodetic conversion, IAU lunar frame; forward and backward conversions are inverse.",
"O04": "Relative quantities recomputed from the absolute states of both spacecraft; Hill/STM solution in closed form.",
"T01": "Reference integration of Euler's equation with small steps, conservation of inertial angular momentum, single use of every torque impulse whatever the division of the interval.",
"T03": "Real spacecraft whose components act in the update in which they run; an independent integration (two-body plus constant acceleration; quaternion with inertial momentum) is driven by the sum that the chosen history says was generated in that update, and must meet position, velocity, attitude and rate after every update.",
"T02": "Main axis parallel to the main target, sub axis in the plane of the two targets; rate by successive attitudes; angular momentum, kinetic energy and control torque from the rate history.",
"D01": "Every subset of the eight disturbances: total equals sum of the parts measured alone; a disabled one contributes exactly zero at every update; periods of update.",
"D02": "Face-by-face sum with exposure predicate; closed-form free-molecular and radiation coefficients; torque by lever arm about the centre of gravity.",
"D03": "Gradient of independently evaluated potentials (finite degree), gravity-gradient torque from its tensor, third-body from differences, residual moment as m x B.",
"V01": "Area of overlapping discs by numerical integration; umbra = 0, open = 1, monotone through a transit, product/minimum over several bodies as declared.",
"V02": "Stand-in ephemeris that encodes (target, observer, instant); the expected state is computed from the code.",
"V03": "Tabulated standard atmosphere and Harris-Priester recomputed; recorded inputs of the NRLMSISE stand-in; field from an independent spherical-harmonic sum; update instants by the flags of S01.",
"G01": "Elevation from geodetic geometry, link budget recomputed in decibel from the declared terms, pattern by neighbouring grid points.",
"G02": "A record of the mass, inertia (parallel axis), surfaces and residual moment; each operation of a history is applied to both.",
}
