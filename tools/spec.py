"""Single source of properties.jsonl and MANIFEST.json: run it after editing.

    python3 tools/spec.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLS = "OpenNTN/system_level_scenario.py"
SLC = "OpenNTN/system_level_channel.py"
LSP = "OpenNTN/lsp.py"
RAY = "OpenNTN/rays.py"
CC = "OpenNTN/channel_coefficients.py"
UT = "OpenNTN/utils.py"
ANT = "OpenNTN/antenna.py"
SC3 = ["OpenNTN/dense_urban_scenario.py", "OpenNTN/urban_scenario.py", "OpenNTN/sub_urban_scenario.py"]
CL3 = ["OpenNTN/dense_urban.py", "OpenNTN/urban.py", "OpenNTN/sub_urban.py"]


def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None,
                                                   **({"state": state} if state else {})),
                  technique=technique, note=note, na=na))


SIM = "deterministic simulation with fault injection"
TRUST = " Sampled, not exhaustive; trusts TensorFlow, Sionna and the simulator's own seams."

prop("C01", "A failing or interrupted post-install never damages Sionna",
     "Whatever goes wrong while a post-install script runs (kill, power loss, full disk, failing or short file operations, "
     "Ctrl-C), the initialisation file of Sionna's channel package is afterwards either exactly what it was or exactly its "
     "registered form, with its permissions and links, and no other file of the installation has changed. "
     "Once the faults stop, running the script again completes the registration.",
     ["crash_points", "fault_sequences", "inputs"],
     "every file operation of the run as crash point or failing operation, sequences of such runs, every layout and content "
     "of the file being edited",
     "No test runs the scripts at all; crash points and failing system calls are never exercised.",
     ["post_install.py", "post_install_legacy.py"],
     m(("atomic replacement of the file", "post_install.py:replace_file"), ("search for the line to add", "post_install.py:modify_vanilla_sionna")),
     ["content, mode and type of every file below the scratch installation after each operation"],
     f"{SIM}: file-operation seam (preloaded library), crash/power-loss model",
     "Real scripts in real CPython processes; every file operation is decided by a seeded controller. Power loss is a model "
     "(unsynced data and names may be lost)." + TRUST)

prop("C02", "Repeated and concurrent registration happens exactly once",
     "However many post-install runs happen, one after another or at the same time, the registration line ends up in Sionna's "
     "channel package exactly once, directly after the line of the terrestrial model, and everything else in the file stays "
     "byte for byte the same. At every moment in between a reader of the file sees either the original or the complete registered file.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the file operations of up to three installers, one of which may die or fail; every file content",
     "No test runs the scripts; interleavings of processes cannot be sampled by unit tests.",
     ["post_install.py", "post_install_legacy.py"],
     m(("check whether the line is present", "post_install.py:modify_vanilla_sionna"), ("atomic replacement", "post_install.py:replace_file")),
     ["content of the file after each file operation of any process"],
     f"{SIM}: seeded interleaving of processes at file operations",
     "Real concurrent processes, one operation at a time in an order chosen by the seed." + TRUST)

prop("C03", "Every model uses exactly its own scenario's parameter tables",
     "The large-scale and small-scale parameters of a channel model are those of 3GPP TR 38.811 for its scenario, frequency "
     "band, link direction, LoS state and nearest tabulated elevation angle, no matter which other models were constructed "
     "before, concurrently or unsuccessfully, and they stay so for the model's life. A construction hit by unreadable or damaged "
     "data files or by an interruption either fails or yields a right model, and affects neither other models nor later constructions.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "every sequence and interleaving of constructions over all scenarios, bands, directions and elevations, with failing opens, damaged files and interruptions",
     "Tests construct single models with intact files and look at a few parameters.",
     [SLS, *SC3, "OpenNTN/models"],
     m(("selection of the table files", "los_parameter_filepath / nlos_parameter_filepath of each scenario"),
       ("loading", f"{SLS}:_load_params"), ("lookup by rounded elevation", f"{SLS}:get_param")),
     ["every parameter of every live model, read through the scenario for LoS and NLoS links"],
     f"{SIM}: file-open faults, damaged data files, interrupts, interleaved constructions; oracle: independent copy of the tables",
     "The reference tables were copied from the repository's data files at the pinned commit after spot checks against the standard: "
     "the check shows that every model reads its own table and that the data do not change." + TRUST)

prop("C04", "Topology state is the last value given, whatever the update history",
     "After any sequence of full and partial topology updates, every quantity of a model (locations, orientations, velocities, "
     "indoor and LoS states, environment parameters, distances, LoS angles, path losses, medians and spreads of the large-scale "
     "parameters) is that of a model told the last-given value of each input at once. A quantity that was not given keeps its "
     "former value, and derived quantities are never stale.",
     ["histories", "inputs"], "every sequence of partial updates with every subset of the inputs, changing batch sizes, environment parameters and forced LoS states",
     "Tests set each topology once or twice with all inputs.",
     [SLS, SLC, UT], m(("update of given inputs", f"{SLS}:set_topology"), ("recomputation of derived quantities", f"{SLS}:set_topology")),
     ["all public properties of the scenario after each update"],
     f"{SIM}: seeded update histories against an independent double-precision reference model",
     "Reference geometry, gas, scintillation and clutter losses and medians are recomputed with numpy from the published formulas." + TRUST)

prop("C05", "A failed or interrupted topology update changes nothing",
     "If a topology update raises, because an input is unusable, a random draw or allocation fails, or it is interrupted at any "
     "point, then the model is exactly as before the call: same state, same large-scale parameters, same channels. The next valid update then behaves as if the failed one had never happened.",
     ["crash_points", "fault_sequences", "histories"],
     "every line of the update as interruption point, every failing draw, every kind of invalid input, at any point of an update history",
     "Tests never make an update fail half-way and look at the model afterwards.",
     [SLS, SLC, LSP, RAY], m(("restoring the former state", f"{SLC}:set_topology / {SLS}:set_topology")),
     ["all observable state and a generated channel before and after the failed call"],
     f"{SIM}: interrupts at arbitrary lines, failing draws, invalid inputs; oracle: bitwise state equality and twin model",
     "Interrupts are raised at line granularity inside the code under test." + TRUST)

prop("C06", "Large-scale parameters and LoS states live exactly one topology",
     "Large-scale parameters and LoS states are drawn once per topology update and used unchanged by every channel generation until "
     "the next update, unless the model was asked to draw large-scale parameters at each generation. A relevant update always renews "
     "the large-scale parameters; LoS states are renewed only by updates that concern them.",
     ["histories"], "every interleaving of updates and generations, with and without per-generation drawing, including no-op updates",
     "Tests look at single calls and cannot see lifetimes across histories.",
     [SLC, SLS, LSP], m(("when to resample", f"{SLC}:set_topology and __call__"), ("LoS sampling", f"{SLS}:_sample_los")),
     ["LSPs used by each generation (at the ray generator's interface), LoS states after each update"],
     f"{SIM}: seeded operation histories with recorded draws",
     "Values are compared bit for bit between calls; equality of independent continuous draws counts as not renewed." + TRUST)

prop("C07", "Generating a channel only reads the model",
     "Generating channels leaves every observable part of the model as it was, also when the generation fails or is interrupted. "
     "The generated channel depends only on the topology, the large-scale parameters in force and the randomness of that call, not on how many or which generations came before.",
     ["histories", "crash_points"], "every history of generations with different lengths and sampling rates, failing draws and interrupts at any line",
     "Tests generate once per model and never compare the model before and after.",
     [SLC, CC, RAY, LSP], m(("pure computation of the response", f"{SLC}:__call__")),
     ["snapshot of the model before/after each generation; channel under replayed randomness vs. a fresh twin"],
     f"{SIM}: histories with faults; oracle: bitwise equality with a twin model under the same random stream",
     "Exact equality under replayed random streams." + TRUST)

prop("C08", "Models are isolated from one another",
     "What one channel model computes is not affected by other models in the same process: not by their construction, updates, "
     "generations, failures or deletion, not by interleaving their operations from several threads, and not by sharing antenna arrays or input tensors. Caller-owned inputs are never modified.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the operations (and code lines) of two to four models with different configurations, sharing arrays and inputs",
     "Tests use one model at a time.",
     [SLS, SLC, LSP, RAY, CC, ANT], m(("all state is per instance", "constructors of the model and its blocks")),
     ["everything each model computes, alone and together"],
     f"{SIM}: cooperative thread scheduler at line granularity; oracle: same operations run alone",
     "Each model has its own simulated random stream so that its results are comparable bit for bit." + TRUST)

prop("C09", "Concurrent generation from one model equals sequential generation",
     "Several threads may generate channels from one model at the same time: each gets exactly the channel it would have got alone "
     "with the same randomness, and the model is unchanged afterwards. This also holds when some of the generations fail.",
     ["schedules", "fault_sequences"], "every interleaving of up to four generations at line granularity, with failing draws",
     "Tests are single-threaded.",
     [SLC, CC, RAY, LSP], m(("no scratch state in the model", f"{SLC}:__call__ and its blocks")),
     ["channels of each thread and the model state"],
     f"{SIM}: cooperative thread scheduler with seeded preemption at line granularity",
     "Preemption between Python lines of the code under test (TensorFlow kernels run single-threaded)." + TRUST)

prop("C10", "One seed, one execution",
     "With the random generators of TensorFlow and Sionna seeded, a whole session (user drops, topology updates, generations) is bit "
     "for bit reproducible in the same and in a fresh process, whatever ran in the process before, and independent of wall-clock time, numpy and Python randomness, hash seeds and garbage collection. Different seeds give different channels.",
     ["histories", "configurations", "fault_sequences"], "every session, every pre-history of the process, every disturbance between its steps",
     "Tests seed nothing and compare nothing across runs.",
     [UT, SLS, LSP, RAY, CC, SLC], m(("all draws come from seeded generators", "tf.random.* and config.tf_rng calls")),
     ["all drops, states and channels of a session"],
     f"{SIM}: sessions replayed under disturbed clocks, foreign randomness and process histories",
     "Known finding F10: seeding only Sionna's generator is not enough." + TRUST)

prop("C11", "LoS states obey requests, and the standard's probability otherwise",
     "Forcing a LoS or NLoS state makes every outdoor link have it until the request is changed; without a request each link is in LoS "
     "with the probability the standard tabulates for the scenario and elevation, independently across links, batch examples and updates, and indoor users are never in LoS.",
     ["histories", "inputs", "configurations"], "every history of requests and updates, all scenarios and elevations, all draws",
     "Tests check one or two elevations with loose statistics and no histories.",
     [SLS, *SC3, UT], m(("LoS sampling", f"{SLS}:_sample_los"), ("probability", "los_probability of each scenario"), ("draw", f"{UT}:sample_bernoulli")),
     ["LoS states after each update"],
     f"{SIM}: request histories; frequencies under evenly covered (stratified) and independent simulated randomness",
     "Statistical bounds are 6 sigma or wider, on fixed seeds." + TRUST)

prop("C12", "Large-scale parameters follow the tabulated joint distribution",
     "For every topology the delay spread, angular spreads, shadow fading and K-factor of a link have the tabulated medians, spreads and "
     "cross-correlations for its LoS state, respect the caps on angular spreads, are correlated between users of one example as the "
     "distance and the tabulated correlation distances demand, and are independent between batch examples.",
     ["inputs", "configurations", "histories"], "every scenario, band, direction, elevation, mixture of LoS states and user layout, after any history of updates; all draws",
     "Tests compare a few moments for single configurations.",
     [LSP, SLS, *SC3], m(("cross-correlation", f"{LSP}:_compute_cross_lsp_correlation_matrix"), ("spatial correlation", f"{LSP}:_compute_lsp_spatial_correlation_sqrt"),
                         ("medians and spreads", "_compute_lsp_log_mean_std of each scenario")),
     ["samples of the LSPs under simulated randomness"],
     f"{SIM}: simulated random draws (median, one-sigma impulse, nominal) against a reference joint distribution",
     "Exact under median and unit-impulse draws; statistical (6 sigma) for correlations." + TRUST)

prop("C13", "Cluster delays and powers follow the standard",
     "Each link has the tabulated number of clusters for its LoS state; delays start at zero, ascend and are exponentially distributed in "
     "proportion to the link's delay spread (with the standard's scaling under LoS), powers decay with the delay under the tabulated "
     "shadowing, are non-negative, sum to one over the clusters, and clusters the link does not have carry no power.",
     ["inputs", "configurations", "histories"], "every configuration, LoS pattern, large-scale parameter draw including extreme ones",
     "Tests check distributions for single default configurations.",
     [RAY], m(("delays", f"{RAY}:_cluster_delays"), ("powers", f"{RAY}:_cluster_powers"), ("masking", f"{RAY}:_compute_clusters_mask")),
     ["delays and powers handed from the ray generator to the coefficient generator"],
     f"{SIM}: simulated random draws incl. extreme values; oracle: relations and distributions of TR 38.901/38.811",
     "Delay order and scaling are not demanded for K-factors below -60 dB, where the standard's own scaling polynomial turns negative." + TRUST)

prop("C14", "Ray angles and cross-polarisation follow the standard",
     "The rays of each cluster lie around the cluster's angle at the standard's offsets scaled by the tabulated cluster spreads, cluster "
     "angles spread around the LoS direction as the link's angular spreads and the standard's inverse functions demand (the first cluster "
     "of a LoS link exactly at the LoS direction), departure and arrival rays are coupled at random, angles are in range, and cross-polarisation ratios are log-normal with the tabulated parameters.",
     ["inputs", "configurations", "histories"], "every configuration, LoS pattern and topology, median, one-sigma, extreme and nominal draws",
     "Tests check distributions for single default configurations.",
     [RAY], m(("azimuth", f"{RAY}:_azimuth_angles"), ("zenith", f"{RAY}:_zenith_angles"), ("coupling", f"{RAY}:_random_coupling"), ("cross-polarisation", f"{RAY}:_cross_polarization_power_ratios")),
     ["angles and ratios handed to the coefficient generator"],
     f"{SIM}: simulated random draws against an independent reference of the angle generation",
     "Departure/arrival angles compared ray by ray up to the random order." + TRUST)

prop("C15", "Path loss and shadow fading scale each link once, only if enabled",
     "Enabling path loss scales every coefficient of a link by exactly that link's path loss (free-space, clutter, gas and scintillation for "
     "its own satellite distance, LoS state and the environment in force), enabling shadow fading by exactly the link's shadow fading; each is applied once, to all antennas, paths and times alike, and not at all if disabled.",
     ["configurations", "histories", "inputs"], "all switch combinations over every configuration, environment history and satellite height",
     "Tests compare individual loss terms, not the generated channels.",
     [SLC, UT, SLS], m(("application", f"{SLC}:_step_12"), ("loss terms", f"{UT}:compute_pathloss_*")),
     ["ratio of channels generated with and without each effect under the same randomness"],
     f"{SIM}: twin models under replayed randomness; oracle: reference losses",
     "Exact ratios under replayed random streams." + TRUST)

prop("C16", "Channels are samples of one continuous-time channel",
     "Asking for more samples or another sampling rate gives the same channel at the same instants; with no motion and no satellite Doppler the channel "
     "is constant; the satellite's Doppler, if enabled, is one uniform rotation per batch example bounded by the orbital speed at its height; "
     "directions of flight are uniform and fresh for each example and generation; delays do not depend on sampling or Doppler.",
     ["inputs", "histories", "configurations"], "every number of samples, sampling rate, velocity, satellite height, Doppler switch history",
     "Tests generate a single sampling configuration.",
     [CC, SLC, UT], m(("phase evolution", f"{CC}:_step_11_doppler_matrix"), ("satellite Doppler", f"{CC}:__call__ / {UT}:compute_stallite_doppler")),
     ["channels at common instants under the same randomness"],
     f"{SIM}: simulated clock (sampling instants) and replayed randomness",
     "Simulated time is the sample axis; tolerance 3e-3 for single precision phases." + TRUST)

prop("C17", "Batch examples and users do not influence each other",
     "Changing one batch example changes the channels of no other example; changing a user's orientation or velocity changes no other "
     "user's channel, and moving a user changes other users only through the specified spatial correlation. Different examples have different random channels.",
     ["inputs", "histories"], "every topology, perturbed example or user, and update history",
     "Tests compare shapes and pooled statistics, which hide cross-talk between examples.",
     [SLS, SLC, LSP, RAY, CC, UT], m(("batch-wise broadcasting", "all tensor computations")),
     ["channels of the untouched examples and users under the same randomness"],
     f"{SIM}: differential perturbation under replayed random streams",
     "Exact equality for untouched examples." + TRUST)

prop("C18", "Every admissible model, topology and draw gives a finite, well-formed channel",
     "For every admissible configuration and topology (users together at one place, below the satellite, fast, any orientation) and every "
     "value the random generators can return, coefficients and delays have the promised shapes and types, all values are finite, delays are "
     "non-negative and ascending, no link is dead, and users have no more paths than clusters.",
     ["inputs", "configurations"], "all admissible configurations, arrays, topologies and draws, including the extremes of each distribution",
     "Tests use a handful of topologies and benign draws.",
     [SLS, SLC, LSP, RAY, CC, UT, ANT], m(("caps and safe operations", f"{LSP}:__call__, {RAY}:__call__")),
     ["shape, type and values of everything generated"],
     f"{SIM}: fault injection at the random-number seam (extreme and constant draws), degenerate topologies",
     "Delay sign and order are not demanded for K-factors below -60 dB (scaling polynomial of TR 38.901 turns negative there)." + TRUST)

prop("C19", "Generated user drops are as promised and directly usable",
     "The topology generator places users in the cell seen at the requested elevation, uniformly over the requested area, with heights, speeds and "
     "directions uniform in the requested ranges, antennas facing the satellite, satellite at the requested height, no user indoor, fresh randomness for "
     "each call and example; its result has the promised shapes and types and is accepted by every model.",
     ["inputs", "configurations", "histories"], "all parameters, batch sizes, elevations, heights and draws (including extremes), optional parameters omitted or given",
     "Tests check shapes and a few ranges.",
     [UT], m(("drop", f"{UT}:drop_uts_in_sector"), ("defaults", f"{UT}:set_3gpp_scenario_parameters"), ("topology", f"{UT}:gen_single_sector_topology, generate_uts_topology")),
     ["the generated topology"],
     f"{SIM}: simulated random draws (nominal, stratified, extreme) against geometric and distributional oracle",
     "KS statistics on fixed seeds with false-alarm probability below 1e-7 per test." + TRUST)

prop("C20", "Compiled execution equals eager execution",
     "Topology updates and channel generation inside compiled graphs (with and without XLA) give the values of eager execution under the same randomness, "
     "draw anew in each call, and are not affected by earlier tracings, failures during tracing or other shapes; tracing leaves the model usable eagerly.",
     ["programs", "histories", "fault_sequences"], "all compiled forms (generation, update plus generation, drop), configurations, call histories and failing traces",
     "Tests run eagerly only.",
     [SLC, SLS, LSP, RAY, CC, UT], m(("graph-compatible computation", "all tensor code")),
     ["results of the compiled and the eager call under the same simulated randomness"],
     f"{SIM}: same stateless simulated randomness in eager, graph and XLA execution; aborted traces",
     "XLA reorders floating-point sums: tolerance instead of equality." + TRUST)

prop("C21", "The impulse response is the superposition of its rays at both arrays",
     "Each coefficient is the sum over the rays of its path of field patterns, polarisation coupling with Faraday rotation, array phases of both "
     "antenna arrays in their orientation, and motion, weighted by cluster powers and the K-factor, with the strongest clusters split into delayed sub-clusters "
     "as the standard prescribes; uplink and downlink use the arrays in their proper roles.",
     ["inputs", "configurations", "histories"], "all arrays, polarisations, patterns, orientations, directions, LoS patterns, update histories and draws",
     "Tests check sub-steps against a transcription of the same code for one configuration.",
     [CC, ANT, SLC], m(("coefficients", f"{CC}:_step_11"), ("arrays", f"{ANT}:PanelArray")),
     ["coefficients and delays against the rays and phases that entered"],
     f"{SIM}: recorded draws replayed through an independent double-precision reference of the coefficient generation",
     "Reference written in numpy from TR 38.901/38.811, reading element patterns and positions of the arrays through their public interface." + TRUST)

prop("C22", "However an installation ends, Sionna stays importable",
     "At every moment of an installation with the installation scripts, whichever of pip, curl, python, ln or the machine fails or is killed, Sionna "
     "never imports a package that is not there and no file of Sionna or of the user is lost or changed beyond the registration. A repeated installation completes, "
     "an installation on top of an existing one changes nothing, and the shell the script is sourced into survives it.",
     ["crash_points", "fault_sequences", "histories"], "every failing tool, file operation as crash point or failure, sequences of such installations, first installations and upgrades",
     "No test runs the scripts.",
     ["install.sh", "install_legacy.sh", "post_install.py", "post_install_legacy.py"],
     m(("order of download, link and registration", "install.sh"), ("atomic registration", "post_install.py")),
     ["content of the simulated site-packages directory after each file operation"],
     f"{SIM}: stand-in tools with injected failures, file-operation seam, crash/power-loss model",
     "pip, curl and the Sionna installation are stand-ins; bash, coreutils, CPython and the scripts are real." + TRUST)

prop("C26", "Channel layers and conversions yield a model's own impulse response",
     "Plugged into Sionna's OFDM and time-domain channel layers, a model gives the frequency responses, channel taps and received signals that follow "
     "from its own impulse response at the number of samples and rate the layer needs, for the topology in force at the time of the call, whatever batch "
     "size the layer announces and whatever updates, other layers or failing calls came before. The package's own conversions (impulse response to OFDM or "
     "time-domain channel, time-domain to OFDM channel, subcarrier frequencies, time vectors and lags) agree with their defining formulas on these responses.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "all sequences of topology updates and layer calls over several layers sharing a model, layer parameters, announced batch sizes, failing calls",
     "No test plugs a model into a channel layer; the examples are notebooks that nobody asserts on.",
     [SLC, UT, CC], m(("two- and three-argument call", f"{SLC}:__call__"),
                      ("conversions", f"{UT}:cir_to_ofdm_channel, cir_to_time_channel, time_to_ofdm_channel")),
     ["outputs of the layers and of the conversions"],
     f"{SIM}: seeded histories of updates, layer calls and failing calls; oracle: double-precision response of a twin's impulse response",
     "The layers themselves are Sionna's." + TRUST)

prop("C27", "A simulation of any length leaves no residue",
     "Updates, generations, drops, displays, constructions and discarded models, successful, failing or interrupted, may be repeated for ever: the number of "
     "live tensors, objects, values kept by the package, open files and threads does not grow with the number of repetitions, and the state of the hosting "
     "process (working directory, environment, seeds and states of the global random generators, numerical and display settings, signal handlers) stays as its owner has set it.",
     ["histories", "fault_sequences"], "all repeated cycles of operations with failing draws, rejected arguments and interruptions at any line",
     "Tests end after a few operations and never look at what stays behind.",
     [SLC, SLS, LSP, RAY, CC, UT, *SC3], m(("state kept between operations", f"{SLS}:set_topology, {SLC}:set_topology"), ("data files", f"{SLS}:_load_params")),
     ["live objects, descriptors, threads and process state after each cycle"],
     f"{SIM}: seeded cycles of operations and faults, growth of what is kept as invariant",
     "Memory inside TensorFlow's runtime is not seen." + TRUST)

prop("C28", "Only supported configurations are accepted, up to the bounds exactly",
     "Models and arrays exist only within the supported domain: carriers of 1.9 to 4 GHz and 19 to 40 GHz, elevations of 10 to 90 degrees, both bounds included, "
     "a direction, arrays of this package for the same carrier, polarisation types that fit the polarisation, panels that do not overlap; a first topology must be complete, nothing "
     "is generated before it, drops know only the three scenarios. Everything inside works, for any kind of real number given; everything outside is refused, and refused or interrupted "
     "attempts do not touch models that exist.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all histories of admissible, inadmissible and interrupted attempts next to a live model",
     "Tests construct valid models; refusal, the bounds and what refusals leave behind are not tested.",
     [SLS, SLC, ANT, UT, *SC3], m(("checks of the arguments", f"{SLS}:__init__, {ANT}:PanelArray, {UT}:set_3gpp_scenario_parameters"),
                                  ("completeness of the first topology", f"{SLS}:set_topology")),
     ["exceptions, state and channels of the live and of the accepted models"],
     f"{SIM}: seeded histories of attempts and interruptions; oracles: documented domain, reference model, twin",
     "Inputs are drawn from lists of values at and beyond every bound." + TRUST)

prop("C29", "A model has and keeps the precision it was built with",
     "Models, arrays and drops built with a precision - or under the default precision in force at that moment - compute and return everything in it, in every step of every history, "
     "whatever other models use and whatever the default is set to later; nothing they do changes the default. Single and double precision agree up to rounding, and what a double "
     "precision model computes (geometry, losses, tables, phases of the direct path) has double accuracy.",
     ["configurations", "inputs", "histories"], "all precisions, defaults and mixtures of models in one process, in every history of updates and generations",
     "Tests run everything in single precision with one default.",
     [SLS, CC, RAY, ANT, UT, *SC3], m(("precision of a model", f"{SLS}:__init__"), ("coefficients", f"{CC}:ChannelCoefficientsGenerator"), ("drops", f"{UT}:gen_single_sector_topology")),
     ["dtypes and values of channels, state, drops and arrays"],
     f"{SIM}: seeded histories that mix precisions and defaults; oracles: same-code twin in the other precision, double precision reference model",
     "Constants of the tables are float32 literals in places; the tolerance for losses and tables is 1e-6, for geometry 1e-9." + TRUST)

prop("C30", "Small-scale draws are independent over rays, links, examples and generations",
     "In every channel generation, initial phases are uniform and independent over rays, polarisation pairs, clusters, users, examples and generations; "
     "cross-polarisation ratios, delays and cluster powers are drawn anew and independently for every ray respectively cluster, user, example and generation; "
     "the random order of rays is uniform and independent over clusters, kinds of angles, examples and generations. Repeated generations, also between topology "
     "updates, environment changes and other models, never reuse a draw. Large-scale parameters are new after each relevant update, and in each generation where asked.",
     ["schedules", "histories", "configurations"], "all histories of generations and updates, sizes, configurations, and models next to each other",
     "Tests compare moments over one generation; shared or reused draws have the right moments.",
     [CC, RAY, LSP, SLC], m(("initial phases", f"{CC}:_step_10"), ("cross-polarisation, delays, powers, coupling", f"{RAY}:__call__"), ("large-scale parameters", f"{LSP}:__call__")),
     ["rays, phases and large-scale parameters of each generation"],
     f"{SIM}: seeded histories of generations; correlation of standardised draws pooled over every axis and over generations (6.5 sigma)",
     "Statistical on fixed seeds: dependence is seen if its correlation exceeds about 6.5/sqrt(pairs); pairs are hundreds to 1e5 per run." + TRUST)

NA = "a pure function of its arguments: no schedule, clock, randomness, I/O or fault for a simulator to decide; "
prop("C23", "Antenna element patterns are those of the standards",
     "Element field patterns (omnidirectional, 38.901, circular aperture, co-phased) have the gains, symmetries and normalisation of the standards for every direction.",
     ["inputs"], "all directions and polarisation slants", "Tests sample a few directions.",
     [ANT], m(("patterns", f"{ANT}:AntennaElement")), ["field of an element"], "", "",
     na=NA + "input generation against a formula would be property testing, not simulation. What the patterns do inside a channel is covered by C21.")
prop("C24", "Correlation-matrix helpers implement their formulas",
     "The exponential and one-ring correlation matrices are Hermitian, positive semi-definite and equal to their defining formulas for every input.",
     ["inputs"], "all inputs", "Tests compare single inputs.",
     [UT], m(("matrices", f"{UT}:exp_corr_mat, one_ring_corr_mat")), ["returned tensors"], "", "",
     na=NA + "they are copies of Sionna's utilities which the channel models do not use.")
prop("C25", "CDL and TDL models follow the standard",
     "The clustered and tapped delay line models have the standard's profiles.",
     ["configurations"], "all profiles", "Not implemented upstream.",
     ["OpenNTN/cdl.py", "OpenNTN/tdl.py"], m(("models", "OpenNTN/cdl.py, OpenNTN/tdl.py")), ["channels"], "", "",
     na="the repository declares these files to be dummies that are not implemented yet (README): there is no behaviour to decide.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            f.write(json.dumps(d)+"\n")
    cmd = "/opt/venv/bin/python -m ntnsim.check {}"
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python -c 'from ntnsim.fs import sim; sim.build_shim()'",
               checks=[dict(property=p["id"], quick_cmd=cmd.format(p["id"]),
                            thorough_cmd="VERIF_TIER=thorough " + cmd.format(p["id"]),
                            technique=p["technique"], level="exploration", level_note=p["note"])
                       for p in P if not p["na"]],
               not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
               notes="No hooks in /repo: the seams are the interpreter's and the C library's (random generators of TensorFlow and Sionna, "
                     "line events, open audit events, preloaded file operations). Replays: python -m ntnsim.check <id> --replay <file>.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
