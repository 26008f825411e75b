#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, claim=True, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], claim=claim, note=note, na=na))
N = "nyx-core/src/"

p("P01", "Propagation ends exactly at the requested epoch",
  "Propagating for any signed duration, or until any epoch, either fails with an error or returns a state whose epoch is exactly the requested one, and a zero duration leaves the state unchanged. The states published on the way are strictly ordered in the direction of propagation, all lie between start and end, and the last one is the returned state. This holds for every integrator and step setting and for any mix of forward, backward and failed calls on the same propagator instance.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for all initial states, integration methods, step options, and all sequences of forward/backward/zero/failed propagation calls on one instance",
  "The stable tests never propagate (their kernels are absent); and epoch bookkeeping depends on the history of step sizes and directions, which no sampled call covers.",
  [N+"propagators/instance.rs", N+"propagators/options.rs"],
  [("final partial step and sign handling of the step", N+"propagators/instance.rs propagate"), ("single step", N+"propagators/instance.rs single_step")],
  ["return value of for_duration/until_epoch*", "channel", "PropInstance.state"])

p("P02", "Adaptive step control honours its tolerance and bounds",
  "With an adaptive integrator, in either direction of time, every step the propagator accepts other than the last one of a call either meets the configured error tolerance, or is no longer than the configured minimum step, or used up the configured number of attempts, and its length stays between the minimum and the maximum step. A fixed-step propagator takes exactly the configured step except for a shorter last one. The next step proposed after a success follows the error and stays within the bounds. A step into a state any part of which is not a number is an error, whatever the kind of step.",
  ["inputs", "histories", "configurations"],
  "for all dynamics, error controls, tolerances, min/max steps, attempt limits, directions and call histories",
  "No stable test drives a propagator; the accepted/rejected decision depends on the whole sequence of errors seen.",
  [N+"propagators/instance.rs", N+"propagators/error_ctrl.rs", N+"propagators/options.rs"],
  [("accept/reject/shrink/grow", N+"propagators/instance.rs derive"), ("error norms", N+"propagators/error_ctrl.rs")],
  ["PropInstance.latest_details", "states after single_step", "calls into the dynamics"])

p("P03", "Integrators are accurate to their order, reversible and composable",
  "Every Runge-Kutta method solves, to rounding, any initial value problem whose solution is a polynomial in time of degree up to the order of the method, and its local error shrinks at the rate of that order. Two-body propagation agrees with the closed-form Kepler solution to the configured accuracy for any orbit and either direction, going out and back returns to the start, and splitting a propagation in two does not change where it ends beyond that accuracy.",
  ["inputs", "configurations"],
  "for all methods, orbits, durations and step options",
  "A wrong coefficient or stage time shows only on particular right-hand sides; the stable tests do not run any propagation against a reference.",
  [N+"propagators/rk_methods/mod.rs", N+"propagators/rk_methods/rk.rs", N+"propagators/rk_methods/dormand.rs", N+"propagators/rk_methods/verner.rs", N+"propagators/instance.rs", N+"dynamics/orbital.rs"],
  [("Butcher tableaux", N+"propagators/rk_methods"), ("stage evaluation", N+"propagators/instance.rs derive"), ("two-body acceleration", N+"dynamics/orbital.rs")],
  ["end states"])

p("P04", "Event-terminated propagation stops at the requested crossing",
  "Propagating until the n-th occurrence of an event returns a state at which the event's quantity is at its target value within the event's precision, at the n-th such crossing after the start and no other, together with the trajectory that leads to it; if the event does not occur often enough within the maximum duration, an error is returned and never a wrong state.",
  ["inputs", "histories"],
  "for all orbits, event scalars and targets, occurrence counts, and maximum durations",
  "Which crossing is hit depends on where the integrator's steps fall relative to the crossings; stable tests propagate to no event.",
  [N+"propagators/event.rs", N+"propagators/instance.rs"],
  [("crossing detection on published states, Brent refinement", N+"propagators/event.rs until_nth_event")],
  ["returned state and trajectory", "error"])

p("P05", "Trajectory queries are exact at samples, consistent between, errors outside",
  "Asking a trajectory for its state at any sampled epoch returns exactly that sample, at an epoch inside its span a state at exactly that epoch interpolated from the samples around it for every quantity it carries (orbit, propellant), and at an epoch outside an error and never an extrapolation. First, last and stepping through the trajectory by any step visit exactly the epochs of that grid within the span.",
  ["inputs"],
  "for all trajectories (1 to many samples, any spacing, mass profiles) and all query epochs and steps",
  "The choice of interpolation window and the edge cases depend on the position of the query among the samples; tests sample few.",
  [N+"md/trajectory/traj.rs", N+"md/trajectory/interpolatable.rs", N+"md/trajectory/traj_it.rs"],
  [("binary search and window", N+"md/trajectory/traj.rs at"), ("Hermite interpolation", N+"md/trajectory/interpolatable.rs")],
  ["Traj::at, every, every_between, first, last"])

p("P06", "Trajectory edits select, merge and resample exactly what they say",
  "After any sequence of building, filtering by epoch or offset, resampling, rebuilding at given epochs and merging, a trajectory holds its states in strictly increasing epoch order without duplicates. Filtering keeps exactly the states inside the given bounds, merging keeps every state of the first trajectory and appends those of the second that lie after its end, and resampling yields states at exactly the requested epochs equal to those of the source trajectory there.",
  ["inputs", "histories"],
  "for all trajectories and all sequences of edits",
  "Tests exercise single edits on one trajectory; combinations and bounds kinds are not sampled.",
  [N+"md/trajectory/traj.rs", N+"md/trajectory/sc_traj.rs"],
  [("finalize, filter, resample, rebuild, add", N+"md/trajectory/traj.rs")],
  ["Traj.states", "CCSDS OEM and parquet exports"])

p("P07", "Finite burns thrust only when commanded and consume exactly their propellant",
  "A spacecraft under a finite burn accelerates by thrust over mass along the commanded direction over exactly those integration steps that begin within the burn's (closed) window, whatever guidance mode the state was handed over with, and not otherwise, and its propellant decreases by thrust over exhaust velocity times the burn time, never increases, and never goes silently below zero: exhaustion is an error. Coasting changes no mass, and disabling mass decrement keeps it constant while thrusting.",
  ["inputs", "schedules", "histories"],
  "for all burn windows relative to the integration steps, thrusters, masses, throttles, directions and propagation directions",
  "Depends on where integration steps fall relative to the burn boundaries; the stable tests never integrate a burn.",
  [N+"dynamics/spacecraft.rs", N+"dynamics/guidance/mnvr.rs", N+"cosmic/spacecraft.rs"],
  [("eom thrust block and finally()", N+"dynamics/spacecraft.rs"), ("guidance mode state machine", N+"dynamics/guidance/mod.rs")],
  ["end states, per-step published states"])

p("P08", "A mission sequence executes its phases in order, each at its own epoch",
  "Propagating a spacecraft sequence runs every phase in chronological order, each with its own propagator and dynamics from its start to the start of the next, applies every discrete event exactly once at its phase boundary, ends exactly at the terminating epoch, and hands each phase the final state of the previous one. Disabled phases are as if they were not there, a state that lies within a phase resumes that phase without its entry event, and a state before the first phase or an inconsistent sequence is reported as an error and never partly ignored.",
  ["inputs", "configurations", "histories"],
  "for all sequences of activity/coast/terminate phases, discrete events, enabled/disabled flags and start epochs",
  "The stable tests only parse sequences; execution paths are combinatorial in the phases.",
  [N+"dynamics/sequence/mod.rs", N+"dynamics/sequence/config.rs", N+"dynamics/sequence/discrete_event.rs"],
  [("propagate over the phase map", N+"dynamics/sequence/mod.rs")],
  ["returned trajectories, final state"])

p("P09", "Every measurement is processed exactly once and the solution stays aligned",
  "Processing a tracking arc yields one measurement update for each group of measurement types a known tracker that sees the vehicle has data for, exactly once, in time order, whatever the spacing between measurements; a measurement marked rejected beforehand gives a time update only. Time updates in between are never further apart than the maximum step, and a prediction ends exactly at its end epoch. The estimates, residuals, gains and ratios of the solution stay aligned one to one, and the filter state is continuous: each estimate starts from the previous one propagated to its epoch.",
  ["inputs", "histories", "configurations"],
  "for all tracking arcs (simultaneous measurements, gaps, unknown trackers, missing types) and filter settings",
  "Stable tests run no filter; alignment depends on the interleaving of measurements, gaps and step sizes.",
  [N+"od/process/mod.rs", N+"od/process/solution/mod.rs"],
  [("process_arc loop", N+"od/process/mod.rs"), ("push_* bookkeeping", N+"od/process/solution/mod.rs")],
  ["ODSolution fields"])

p("P10", "Kalman update follows the textbook and rejection leaves the filter unchanged",
  "Every measurement update equals the Kalman update for that prior, residual and noise; a covariance is always symmetric and positive semi-definite and never grows by processing a measurement. A measurement whose residual ratio exceeds the configured threshold is marked rejected and changes neither state nor covariance beyond the time update, and one that does not is accepted.",
  ["inputs", "histories", "configurations"],
  "for all priors, measurement noise, residual thresholds, filter variants and measurement sequences",
  "Stable tests check no update; accept/reject depends on the whole history of the filter.",
  [N+"od/kalman/filtering.rs", N+"od/estimate/kfestimate.rs", N+"od/estimate/residual.rs", N+"od/process/mod.rs"],
  [("time_update, measurement_update", N+"od/kalman/filtering.rs"), ("residual ratio and rejection", N+"od/kalman/filtering.rs")],
  ["estimates, residuals, gains"])

p("P11", "Process noise is added only where it applies, by the stated amount",
  "State noise compensation is added at a time update only from its configured start time on and only when the gap since the previous estimate does not exceed its disable time; the added covariance grows with the gap as its acceleration variance model says, with the configured decay, and is symmetric positive semi-definite. Of several process noises the last applicable one applies, and a time update without an applicable one adds nothing.",
  ["inputs", "histories", "configurations"],
  "for all process noise settings, start and disable times, gaps and orbits",
  "Timer logic depends on the sequence of gaps; stable tests do not run it.",
  [N+"od/snc.rs", N+"od/kalman/filtering.rs"],
  [("propagate/to_matrix", N+"od/snc.rs")],
  ["predicted covariance"])

p("P12", "Smoothing and solution queries are consistent with the filter run",
  "Smoothing a solution keeps its epochs, measurements and alignment, ends at the filter's last estimate, and equals the fixed-interval smoother of the recorded estimates; residual statistics, accepted/rejected splits, filters by tracker or type and slices of a solution contain exactly the matching entries and preserve their order. The tests of a solution (normality of the residual ratios, NIS, and NEES against a truth trajectory) accept exactly when the recorded accepted residuals or errors pass the stated chi-squared or Kolmogorov-Smirnov bound.",
  ["inputs", "histories"],
  "for all solutions produced by a filter",
  "Tests sample none of these.",
  [N+"od/process/solution/smooth.rs", N+"od/process/solution/mod.rs", N+"od/process/solution/filter_data.rs", N+"od/process/solution/stats.rs"],
  [("smooth", N+"od/process/solution/smooth.rs")],
  ["ODSolution"])

p("P13", "Simulated tracking is reproducible and only within schedule and visibility",
  "Generating measurements from a trajectory and tracking configurations with a given seed always gives the same arc; every measurement lies on the tracker's sampling grid inside one of its scheduled strands and within the trajectory, is produced only when the vehicle is visible to it, and every grid epoch that is scheduled and visible has a measurement.",
  ["inputs", "configurations"],
  "for all trajectories, networks, configurations and seeds",
  "Stable tests only check configuration parsing and one schedule.",
  [N+"od/simulator/arc.rs", N+"od/simulator/scheduler.rs", N+"od/simulator/trkconfig.rs", N+"od/ground_station/trk_device.rs"],
  [("generate_measurements", N+"od/simulator/arc.rs")],
  ["TrackingDataArc"])

p("P14", "Generated schedules follow visibility, cadence and handoff",
  "A generated tracking schedule contains only strands (up to the configured alignment) inside the trajectory's span during which the tracker's device sees the vehicle, taken from passes at least as long as the configured minimum, following the configured cadence and alignment; under an eager or greedy handoff no two single-vehicle trackers overlap and every contact cut short is cut at the boundary with its neighbour.",
  ["inputs", "configurations"],
  "for all visibility patterns, cadences, handoffs and alignments",
  "Schedules depend on the relative order of all visibility windows.",
  [N+"od/simulator/arc.rs", N+"od/simulator/scheduler.rs"],
  [("generate_schedule", N+"od/simulator/arc.rs")],
  ["returned configurations"])

p("P15", "Tracking-data edits keep exactly the selected measurements",
  "Filtering a tracking arc by epoch, offset, tracker or measurement type, excluding, resampling, downsampling, merging and rejecting act only on the selected measurements: everything else is kept unchanged and in time order, and the reported trackers, types, first, last and duration always describe what is in the arc.",
  ["inputs", "histories"],
  "for all arcs and all sequences of edits",
  "Tests sample a single arc with single edits.",
  [N+"od/msr/trackingdata/mod.rs", N+"od/msr/measurement.rs"],
  [("filter_by_*, exclude_*, resample", N+"od/msr/trackingdata/mod.rs")],
  ["TrackingDataArc.measurements"])

p("P16", "Tracking data survive writing to and reading from files",
  "Writing a tracking arc to a parquet file or to a CCSDS TDM and reading it back returns the same trackers, epochs, types and values (TDM to the precision it writes), for any set of trackers, types, gaps and time scales; a restriction to a time window at export keeps exactly the measurements inside it, ends included. Transmitted frequencies, constant or ramped, and received ones become the Doppler they stand for, and comments change nothing. Importing never invents a measurement that is not in the file and reports malformed values, epochs, time systems or columns as an error.",
  ["inputs", "configurations"],
  "for all arcs, export options and field aliases",
  "Tests round-trip one arc.",
  [N+"od/msr/trackingdata/io_parquet.rs", N+"od/msr/trackingdata/io_ccsds_tdm.rs"],
  [("to_parquet/from_parquet", N+"od/msr/trackingdata/io_parquet.rs"), ("to_tdm_file/from_tdm", N+"od/msr/trackingdata/io_ccsds_tdm.rs")],
  ["files, arcs"])

p("P17", "Monte Carlo runs are reproducible, indexed and isolated",
  "A Monte Carlo run with a given seed always draws the same dispersed states in the same order and reports each run exactly once under its index, whatever the number of threads or their schedule; resuming after a number of skipped draws yields the runs an uninterrupted execution has from there on; a failing run is reported as failed under its index and affects no other; queries and exports of the results show each run's own values, with the given default (or nothing) for failed runs.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "for all seeds, run counts, skips, thread schedules and failing runs",
  "Order of parallel execution and failing runs are not controlled by tests.",
  [N+"mc/montecarlo.rs", N+"mc/results.rs", N+"mc/generator.rs"],
  [("generate_states, run/resume", N+"mc/montecarlo.rs")],
  ["Results.runs"])

p("P18", "Dispersions are applied where and as configured",
  "Each dispersion of a multivariate random variable changes the parameter it names (to first order) by a normal deviation of the configured mean and size, independently of the other dispersed parameters and leaving alone the parts of the state it does not depend on, the reported actual dispersions equal the difference between the drawn state and the template, and a state drawn from a covariance follows that covariance in the frame it is given in.",
  ["inputs", "configurations"],
  "for all sets of dispersions, templates and covariances",
  "Statistical tests sample few parameters.",
  [N+"mc/multivariate.rs", N+"mc/dispersion.rs", N+"mc/generator.rs"],
  [("MvnSpacecraft::new/sample", N+"mc/multivariate.rs")],
  ["DispersedState"])

p("P19", "A targeter solution really meets its objectives within its constraints",
  "When a targeter of corrections (position or velocity, inertial or in a local frame; finite difference or hyperdual) reports a solution, applying the reported correction to the initial state at the correction epoch, in the requested frame, and propagating to the achievement epoch meets every objective within its tolerance, in the objective frame; the reported states and errors are those of that propagation, every correction lies within the bounds of its variable, and what is not a variable is untouched. A finite burn solution (angles, rates of the angles, or direction of the thrust) hands out the maneuver which, flown from the corrected state, meets the objectives. Otherwise it returns an error; setups that cannot be solved as stated are rejected as errors.",
  ["inputs", "configurations"],
  "for all initial states, variables, objectives, frames and bounds",
  "Stable tests run no targeter.",
  [N+"md/opti/targeter.rs", N+"md/opti/raphson_finite_diff.rs", N+"md/opti/raphson_hyperdual.rs", N+"md/opti/solution.rs"],
  [("Newton-Raphson loop", N+"md/opti/raphson_finite_diff.rs"), ("apply", N+"md/opti/targeter.rs")],
  ["TargeterSolution"])

p("P20", "Batch least squares recovers the state that explains the data",
  "Given noiseless measurements after the initial epoch that make the state observable and an initial guess near the truth, a batch least-squares solution reported as converged is the truth to the accuracy the tolerance allows, whatever the order of trackers, types and equal epochs in the arc, and normal-equation solutions do converge. The solution depends on every usable measurement in the arc and on no other, its covariance is symmetric positive definite and is the inverse of the information those measurements carry, and a solution that did not meet the tolerance is never reported as converged.",
  ["inputs", "configurations"],
  "for all arcs, trackers and solver options",
  "Stable tests run no batch estimator.",
  [N+"od/blse/mod.rs"],
  [("estimate", N+"od/blse/mod.rs")],
  ["BLSSolution"])

p("P21", "Measurement models agree with geometry and their partials",
  "The noiseless measurements of every tracking device (ground stations of Earth and Moon orbiters, inter-satellite links, position devices, transmitters seen by a fixed or moving ground asset) equal the geometric values between device and vehicle at the measurement time, averaged over both ends of the integration time when one is configured, whatever frame the vehicle is followed in and whatever types were added to or removed from the device in whatever order. A measurement is withheld exactly when the line of sight is below the mask or obstructed at an end of the integration. The sensitivity matrix is the derivative of the instantaneous modelled measurement with respect to the estimated state and does not depend on the observed values; the noise covariance is that of the configured noises, each in the row of its type.",
  ["inputs", "configurations"],
  "for all devices, orbits, frames, histories of configured types, masks and integration times",
  "Tests sample no geometry.",
  [N+"od/ground_station/mod.rs", N+"od/ground_station/trk_device.rs", N+"od/msr/sensitivity.rs", N+"od/msr/types.rs", N+"od/interlink/trk_device.rs", N+"od/interlink/sensitivity.rs", N+"od/position/trk_device.rs", N+"od/position/sensitivity.rs", N+"od/groundpnt/mod.rs", N+"od/groundpnt/trk_device.rs", N+"od/groundpnt/sensitivity.rs"],
  [("measure/_instantaneous", N+"od/ground_station/trk_device.rs"), ("sensitivity", N+"od/msr/sensitivity.rs")],
  ["measurements, sensitivities"])

p("P22", "Configurations survive serialisation unchanged",
  "Writing any spacecraft, ground station, noise model, tracking configuration, maneuver, dispersion, propagator option or mission sequence to its file format (YAML, ASN.1 DER or Dhall) and reading it back gives an equal object, and truncated, extended or otherwise invalid input is an error rather than a silently different object.",
  ["inputs"],
  "for all values of the configuration types",
  "Tests round-trip a few literals.",
  [N+"io/mod.rs", N+"cosmic/spacecraft.rs", N+"od/ground_station/mod.rs", N+"od/noise/mod.rs", N+"od/simulator/trkconfig.rs", N+"dynamics/guidance/mnvr.rs", N+"dynamics/sequence/config.rs"],
  [("serde and ASN.1 implementations", N+"io/mod.rs")],
  ["strings and bytes"])

p("P23", "Low-thrust guidance drives its elements to target and then coasts",
  "A low-thrust control law returns a unit direction in the inertial frame with full throttle, or no direction and no throttle. It thrusts exactly while some objective is unmet and the configured eclipse limit is not exceeded, never changes the mode of an inhibited spacecraft, and steers only for objectives that are unmet, of nonzero weight and efficient enough at that place of the orbit (an efficiency is the best rate of the element here over the best along the orbit). The direction for one objective reduces its error; with several, it is their combination weighted as configured, whatever their order and however they are grouped. In closed loop the error of the targeted element shrinks and propellant is only used while thrusting. A replayed thrust profile commands what was recorded at or before the epoch, and nothing outside of it.",
  ["inputs", "histories", "configurations"],
  "for all orbits, objectives, weights and efficiency thresholds",
  "Tests sample one state per law.",
  [N+"dynamics/guidance/ruggiero.rs", N+"dynamics/guidance/kluever.rs", N+"dynamics/guidance/mod.rs", N+"dynamics/guidance/replay.rs"],
  [("direction/throttle/next", N+"dynamics/guidance/ruggiero.rs")],
  ["GuidanceLaw trait"])

p("P24", "Force models follow their laws, superpose, and match their partials",
  "The acceleration of a spacecraft in its integration frame is the sum of the two-body term and of the contribution of each configured model in any order: third bodies pull on the spacecraft and on the central body, a gravity field is the gradient of its potential with the coefficients of its file up to the requested degree and order, solid tides those of the Love numbers, drag opposes the velocity relative to the rotating atmosphere, radiation pressure pushes away from the Sun and vanishes in the shadow. Forces are proportional to their area and coefficient and inversely proportional to the total mass (a massless spacecraft with forces is an error). The partials used for state transition matrices are the derivatives of those same accelerations with respect to position and to the reflectivity, and computing them does not change the acceleration.",
  ["inputs", "configurations"],
  "for all states, integration frames, models, coefficients and orders of the models",
  "Tests do not evaluate most models, and need ephemeris files; partials are only compared with themselves.",
  [N+"dynamics/spacecraft.rs", N+"dynamics/orbital.rs", N+"dynamics/solarpressure.rs", N+"dynamics/drag.rs", N+"dynamics/gravity_field.rs", N+"dynamics/solid_tides.rs", N+"io/gravity.rs"],
  [("eom and dual_eom", N+"dynamics"), ("GravityFieldData", N+"io/gravity.rs")],
  ["eom, dual_eom, gradient"])

p("P25", "Lambert solutions connect the two positions in the given time",
  "Whenever a Lambert solver returns a solution for two positions and a flight time, leaving the first position with the returned velocity reaches the second one after exactly that time with the returned arrival velocity, in the requested direction of motion (prograde when left to the solver) and number of revolutions. Otherwise it returns an error, in particular for positions that define no transfer plane and flight times that are not positive; a planetary transfer that exists without revolutions is found.",
  ["inputs", "configurations"],
  "for all geometries, times of flight and transfer kinds",
  "Tests cover a handful of textbook cases.",
  [N+"tools/lambert/izzo.rs", N+"tools/lambert/godding.rs", N+"tools/lambert/mod.rs"],
  [("izzo, gooding", N+"tools/lambert")],
  ["LambertSolution"])

p("P26", "Noise models are reproducible and have their configured statistics",
  "Sampling a stochastic noise with the same generator state gives the same sequence and with another one a different sequence; white noise has the configured mean and sigma, independent from draw to draw, between measurement types and of the epoch; a Gauss-Markov bias starts with, and keeps, the spread it reports and is correlated over its time constant; a constant bias moves every sample by that constant; scaling a noise scales its samples and its reported covariance; the covariance reported for a measurement is the sum of those of the configured parts, for every device, and a device without noise for a type is an error rather than a silent measurement or a panic.",
  ["inputs", "histories"],
  "for all noise parameters, seeds and epoch sequences",
  "Tests check one parameter set each.",
  [N+"od/noise/mod.rs", N+"od/noise/white.rs", N+"od/noise/gauss_markov.rs"],
  [("StochasticNoise::sample", N+"od/noise/mod.rs")],
  ["samples, covariance"])

p("P27", "Trajectories and orbit determination solutions survive files",
  "A trajectory written to parquet and read back has the same epochs (to the microsecond the file keeps), positions, velocities, frame, and, for the fields exported, masses, Cr, Cd, thruster, thrust direction and guidance mode of every state, in order; with a step it has the states of the trajectory on the grid which starts at the start of the window clipped to the span. Written to a CCSDS OEM and read back it has the same orbits and, for all else, the template. An orbit determination solution written to parquet and read back has, for every entry of the requested window, the same state, covariance, residual (tracker, types, prefit, postfit, whitened, observed, computed, noise, ratio, rejection), gain and filter-smoother ratio, or none of them where there was none; a solution for a ground asset likewise writes the estimates of its window column by column. The difference of two trajectories holds, on the epochs of the window which both have, the difference in the RIC frame (a median among the neighbouring rows where there are many) and that of every field both have; the ground track holds the trajectory turned into the body fixed frame, every minute. An empty window or a malformed file (empty, truncated, foreign, missing or ill-typed columns, invalid epochs or frame) is an error, never a panic nor a partial result.",
  ["inputs"],
  "for all trajectories, solutions, windows, field selections and damaged files",
  "Tests write files and check a column or two; only one path is read back.",
  [N+"md/trajectory/traj.rs", N+"md/trajectory/sc_traj.rs", N+"od/process/solution/export.rs", N+"od/process/solution/import.rs", N+"od/groundpnt/solution.rs"],
  [("Traj::to_parquet, from_parquet, to_oem_file, from_oem_file", N+"md/trajectory/sc_traj.rs"), ("ODSolution::to_parquet, from_parquet", N+"od/process/solution")],
  ["Traj", "ODSolution"])

p("P28", "B-plane parameters and corrections are those of the hyperbola",
  "For every hyperbolic orbit B.T, B.R, the magnitude and angle of B, the S/T/R matrix and the partials with respect to the velocity are those of the closed form, stay the same along the two-body flight, and agree with the state parameters of the spacecraft; an orbit that is not hyperbolic is an error. A velocity correction returned for a target B.T and B.R brings the orbit onto that target within its tolerance and reports the B-plane of the corrected orbit, and targets near the present B-plane are reached. Targeting objectives made from a B-plane target carry its values and tolerances.",
  ["inputs"],
  "for all hyperbolas, positions along them, targets and tolerances",
  "Tests check two published cases; a wrong sign or partial shows for one side of the asymptote or one orientation only.",
  [N+"cosmic/bplane.rs", N+"cosmic/spacecraft.rs"],
  [("BPlane::new, jacobian, try_achieve_b_plane", N+"cosmic/bplane.rs"), ("StateParameter BdotT, BdotR", N+"cosmic/spacecraft.rs value")],
  ["BPlane", "try_achieve_b_plane", "Spacecraft::value"])

p("P29", "Operations on a spacecraft state change what they name and nothing else",
  "Setting any parameter of a spacecraft, building it with another mass, coefficient, thruster, orbit or guidance mode, setting or adding a state vector, applying a velocity change, and enabling, resetting or removing its state transition matrix changes exactly the quantities it names, to the values named, and no other bit of the state; an operation that is refused (a read-only parameter, a thruster parameter without a thruster) changes nothing. Every parameter reads the quantity it is named after, setting a Keplerian element keeps the other elements, setting the magnitude of the position or velocity keeps its direction, and no operation on numbers gives something that is not a number.",
  ["inputs", "histories"],
  "for all states, parameters, values and sequences of operations",
  "Tests set a few parameters once; a slip that leaks into another field or depends on what was set before needs sequences.",
  [N+"cosmic/spacecraft.rs", N+"md/param.rs", N+"utils.rs"],
  [("State::set_value, value, set, to_vector, add", N+"cosmic/spacecraft.rs"), ("StateParameter", N+"md/param.rs")],
  ["Spacecraft fields", "State::value"])

p("P30", "Multiple shooting gives a chain of legs through its nodes",
  "The first guess of a multiple shooting has its nodes at equal intervals of time, on the line between the ends (or above the flight, ending at the height of the target), the last at the target; fewer than three nodes or coinciding ends are an error. A solution has one leg for each node, each starting exactly where and when the one before ended, changing the velocity alone and by the reported correction, and arriving at its node at the epoch of the node within tolerance, the last at the target; it costs no more than the first guess; and the trajectories built from it are these legs.",
  ["inputs"],
  "for all initial states, targets, node counts and heuristics",
  "No stable test solves a multiple shooting problem.",
  [N+"md/opti/multipleshooting/multishoot.rs", N+"md/opti/multipleshooting/equidistant_heuristic.rs", N+"md/opti/multipleshooting/altitude_heuristic.rs", N+"md/opti/multipleshooting/ctrlnodes.rs"],
  [("MultipleShooting::solve", N+"md/opti/multipleshooting/multishoot.rs"), ("equidistant_nodes, linear_altitude_heuristic", N+"md/opti/multipleshooting")],
  ["MultipleShootingSolution", "build_trajectories"])

if __name__ == "__main__":
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(ROOT, "spec", q["id"] + ".tla")):
            checks.append(dict(property=q["id"], quick_cmd="python3 run.py %s quick" % q["id"], thorough_cmd="python3 run.py %s thorough" % q["id"],
                technique="TLA+ model checked with TLC; scenarios replayed into nyx; recorded traces validated with TLC against the same spec",
                level="model_checking",
                level_note=(q["note"] or "Design model explored exhaustively on a small instance; the real code is checked on model-generated and seeded random histories by trace validation.")
                    + " Trusts TLC, the harness' recording and hifitime/anise/nalgebra.", evidence_file="evidence/%s.json" % q["id"]))
        else:
            na.append(dict(property=q["id"], reason=q["na"] or "not yet built"))
    import subprocess
    man = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
        notes="TLA+/TLC. No hooks in /repo: the harness crate in /verif/harness uses the public API only. Repairs of defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.json.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            a = dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], hook_needed=None)
            if q["observe"]: a["observe_at"] = q["observe"]
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=a)) + "\n")
