M = lambda *a: [{"name": n, "where": w} for n, w in a]
ST = lambda *a: [{"name": n, "meaning": m, "where": w} for n, m, w in a]

p("P01", "A checkpoint file is always one complete saved state",
  "Whenever a sampler state or cache is written to a file, then at every instant, and after a process crash, a power "
  "cut, a disk error, a full disk or a termination signal at any point of the write, the file holds exactly the "
  "bytes of one complete earlier or current state, or did not exist before and still does not. "
  "A write that returned without an error is the state found afterwards, a failed write leaves the previous state, "
  "and a nested write made by a signal arriving during a write never mixes the two states.",
  ["crash_points", "fault_sequences", "schedules"],
  "every sequence of saves, every crash or power-cut instant, every single file-system failure, every signal instant",
  "Tests call the dump once on a healthy disk; the guarantee is about the instants in the middle of the call.",
  ["bilby/core/utils/io.py", "bilby/core/sampler/base_sampler.py"],
  M(("write temporary, flush, fsync, rename", "bilby/core/utils/io.py:safe_file_dump")),
  ST(("checkpoint file", "the durable state a restart reads", "<outdir>/<label>_resume.pickle and siblings")),
  ["file contents on disk after each simulated incarnation"])

p("P02", "An interrupted nested-sampling run resumes without losing or altering points",
  "However often a checkpointing nested-sampling run is killed, signalled, or hit by disk errors, every point recorded "
  "in the checkpoint it restarts from appears exactly once, unchanged and in likelihood order, in later checkpoints "
  "and in the final nested samples, with the likelihood value the user's likelihood gives for it. The final evidence "
  "and weights are those of exactly these samples, the posterior is drawn from them, and the likelihood-call count "
  "and the sampling time accumulate over the interruptions without counting the time the machine was down.",
  ["crash_points", "fault_sequences", "schedules", "configurations"],
  "every interruption point and sequence of interruptions, for every sampling method, bound, proposal set, checkpoint "
  "cadence and pool size",
  "Tests resume at most once from one hand-picked point and look at the posterior's rough shape.",
  ["bilby/core/sampler/dynesty.py", "bilby/core/sampler/dynesty_utils.py", "bilby/core/sampler/base_sampler.py"],
  M(("checkpoint loop", "dynesty.py:_run_external_sampler_with_checkpointing"),
    ("restore", "dynesty.py:read_saved_state"), ("save", "dynesty.py:write_current_state")),
  ST(("saved run", "dead points with id, iteration, likelihood, weights", "dynesty sampler.saved_run"),
     ("live points", "current live set", "dynesty sampler.live_v/live_logl")),
  ["resume file contents", "result.nested_samples, log_evidence, posterior, sampling_time"])

p("P03", "Unusable or unwanted saved state never stops or contaminates a run",
  "Starting a run with a resume file that is empty, truncated, corrupt or not a saved state of that sampler behaves "
  "like starting without one: the run completes with a valid result of its own. With resuming disabled, nothing "
  "stored by an earlier run in the same directory influences the samples, the counters or the reported times.",
  ["fault_sequences", "histories", "configurations"],
  "every truncation point and corruption of every resume file, every earlier history of the directory, for every "
  "checkpointing sampler",
  "Tests start from an empty directory or a healthy file.",
  ["bilby/core/sampler/dynesty.py", "bilby/bilby_mcmc/sampler.py", "bilby/core/sampler/ptemcee.py",
   "bilby/core/sampler/emcee.py", "bilby/core/sampler/kombine.py", "bilby/core/sampler/zeus.py"],
  M(("guarded load", "read_saved_state / setup_chain_set / setup_sampler of each sampler"),
    ("resume flag", "run_sampler(resume=...), --clean")),
  ST(("resume file", "state of an earlier run", "<outdir>/<label>_resume.pickle")),
  ["the run's outcome, result.samples, nested samples, chain length"])

p("P04", "An interrupted bilby-mcmc run resumes its chains without gaps or rewrites",
  "However often a bilby-mcmc run is killed, signalled or hit by disk errors, each chain restored from a checkpoint "
  "continues from exactly its recorded end: the recorded history is never altered, dropped or repeated, every recorded "
  "sample carries its own prior and likelihood values and lies inside the prior, and counters and sampling time only "
  "accumulate. The posterior reported at the end consists of samples taken from the chains at the reported burn-in and "
  "thinning, and the run stops only once the requested number of samples is available.",
  ["crash_points", "fault_sequences", "schedules", "configurations"],
  "every interruption point and sequence, number of temperatures, ensembles and pool workers",
  "Tests run uninterrupted chains, or resume once after a normal finish.",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
  M(("checkpoint", "bilby_mcmc/sampler.py:write_current_state"), ("restore", "setup_chain_set"),
    ("chain storage", "chain.py:Chain")),
  ST(("chains", "all visited states with likelihood and prior", "BilbyPTMCMCSampler.sampler_dictionary"),
     ("sampling time", "accumulated wall clock", "ptsampler.sampling_time")),
  ["resume file", "result.posterior, meta data, sampling time"])

p("P05", "Tempering swaps exchange whole states and the chains go on from them",
  "A temperature swap either leaves two neighbouring chains untouched or exchanges their complete current states, "
  "likelihood and prior included, and the next step of each chain starts from the state the swap left it with. The set "
  "of states held across temperatures is conserved by swaps, swaps happen only between neighbouring temperatures, and "
  "each chain's samples are accepted according to its own temperature, whichever worker process executes the step. "
  "(Chains that the user asked to freeze after convergence are excepted.)",
  ["schedules", "histories", "configurations"],
  "every interleaving of steps and swaps, every assignment of chains to workers, every temperature ladder and ensemble",
  "Tests do not look at the states between a swap and the next step.",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"],
  M(("swap", "BilbyPTMCMCSampler.swap_tempered_chains"), ("step", "BilbyMCMCSampler.step"),
    ("current sample", "Chain.current_sample")),
  ST(("current sample", "state the next step starts from", "Chain")),
  ["chain contents before and after each swap and step, proposals received"])

p("P06", "An interrupted ptemcee run resumes from its recorded walkers",
  "However often a ptemcee run is killed, signalled or hit by disk errors, a restart continues from the walker history "
  "in the last checkpoint: all recorded iterations are kept unchanged and in order, evaluation-time and temperature "
  "records stay aligned with them, and the run then finishes with a result. Every reported posterior sample is one the "
  "cold walkers visited after the reported burn-in, with its own likelihood value.",
  ["crash_points", "fault_sequences", "schedules", "configurations"],
  "every interruption point, including before the first convergence check, and every checkpoint cadence",
  "Tests run ptemcee uninterrupted.",
  ["bilby/core/sampler/ptemcee.py"],
  M(("checkpoint", "ptemcee.py:checkpoint, write_current_state"), ("restore", "ptemcee.py:setup_sampler")),
  ST(("chain array", "position of each walker at each iteration", "resume pickle"),
     ("beta list, tau list, times", "per-check diagnostics", "resume pickle")),
  ["resume file", "result.samples, log_likelihood_evaluations"])

p("P07", "Interrupted ensemble samplers keep and complete their recorded chain",
  "However often an emcee, zeus or kombine run is killed, signalled or hit by disk errors, a restart continues from "
  "the saved chain and performs exactly the steps that were still missing, so the finished chain has the requested "
  "number of iterations with the recorded ones unchanged. The plain-text chain file lists every completed step of every "
  "walker once and in order, and reported samples carry the likelihood of their own position.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "every interruption point, repeated interruptions, repeated reruns of a finished run, walker and step counts",
  "Tests use chains of a few steps that are never interrupted.",
  ["bilby/core/sampler/emcee.py", "bilby/core/sampler/zeus.py", "bilby/core/sampler/kombine.py"],
  M(("checkpoint and resume", "emcee.py:checkpoint, _previous_iterations, run_sampler")),
  ST(("sampler pickle", "chain so far", "<label>_emcee/sampler.pickle"), ("chain file", "text log", "chain.dat")),
  ["resume file, chain file", "result.samples, walkers"])

p("P08", "A termination signal always checkpoints, cleans up and exits as configured",
  "A checkpointing sampler that receives SIGTERM, SIGINT or SIGALRM while sampling writes one loadable checkpoint, "
  "shuts its worker pool down and exits with the configured exit code, whichever instant the signal hits and also when "
  "the whole process group is signalled. Worker processes never write the checkpoint, and once a sampler has finished "
  "or failed, the signal handlers the application had installed are in force again.",
  ["schedules", "fault_sequences", "configurations"],
  "every signal, every delivery instant, parent only or whole group, pools of every size, runs that end normally or fail",
  "Tests send one signal at an arbitrary moment chosen by the wall clock.",
  ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py", "bilby/bilby_mcmc/sampler.py"],
  M(("handler installation and restoration", "base_sampler.py:signal_wrapper"),
    ("checkpoint and exit", "Sampler.write_current_state_and_exit"), ("pool shutdown", "Sampler._close_pool")),
  ST(("signal handlers", "process-wide", "signal module"), ("pool", "workers", "Sampler.pool")),
  ["exit code, resume file, live workers, installed handlers"])

p("P09", "Samplers with external output directories never lose or mix their files",
  "For samplers whose library writes into an output directory (pymultinest, ultranest, dnest4): the library finds at its start "
  "exactly the files of the configured output directory and is told to resume if and only if that was asked for. However the run "
  "ends by itself, by a handled signal or by an exception, the output directory afterwards holds exactly what the library left "
  "(files it was in the middle of writing excepted), whether or not it ran in a temporary directory, together with files it "
  "never touched; if files cannot be copied, a complete copy of each remains there or in the temporary directory. After a crash "
  "every file there is a complete version no older than the library's last completed request to save. A normal end leaves no "
  "temporary directory behind. The recorded sampling time stays readable, counts every interval once and, when resuming, "
  "includes earlier runs. The result holds the samples the library wrote.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash, signal and file-system fault around moving files, every sequence of interrupted runs, with and without "
  "temporary directories",
  "Tests mock the library and never fail a copy.",
  ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/pymultinest.py", "bilby/core/sampler/ultranest.py",
   "bilby/core/sampler/dnest4.py"],
  M(("temporary directory handling", "base_sampler.py:_TemporaryFileSamplerMixin")),
  ST(("output directory", "final location", "outputfiles_basename"), ("temporary directory", "working copy",
     "temporary_outputfiles_basename"), ("time file", "seconds so far", "sampling_time.dat")),
  ["directory contents after each incarnation"])

p("P10", "Saving a result never destroys the result already on disk",
  "While a result is saved over an existing one, in any format, a crash, disk error or full disk at any point leaves a "
  "complete readable result, the old (possibly under its backup name) or the new one. After a save that returned normally, reading the file back gives "
  "equal posterior, evidence, priors, keyword arguments and metadata, and saving never changes the result object in "
  "memory.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash or failure instant of every save, every format, overwrite mode and kind of content",
  "Tests save to a healthy disk and never over a result they then need.",
  ["bilby/core/result.py", "bilby/core/utils/io.py"],
  M(("save", "result.py:Result.save_to_file"), ("backup", "utils/io.py:move_old_file"), ("load", "read_in_result")),
  ST(("result file", "the product of the analysis", "<outdir>/<label>_result.<ext>")),
  ["result files on disk", "read_in_result"])

p("P11", "Rerunning a finished analysis returns the same result without sampling again",
  "Running a finished analysis (stored in the default JSON format) again in the same directory returns the stored result, with equal samples, evidence and "
  "sampling time, without evaluating a sampling step, however many times it is repeated, interrupted or crashes while "
  "re-saving. A stored result is used only if it belongs to the same sampled and fixed parameters and likelihood settings, "
  "and an unreadable stored result is ignored.",
  ["histories", "crash_points", "configurations"],
  "every sequence of runs, reruns and interruptions, and every change of configuration between them",
  "Tests rerun at most once, with an unchanged, healthy file.",
  ["bilby/core/sampler/__init__.py", "bilby/core/sampler/base_sampler.py", "bilby/core/result.py"],
  M(("cache check", "base_sampler.py:check_cached_result"), ("entry point", "sampler/__init__.py:run_sampler")),
  ST(("result file", "finished analysis", "<outdir>/<label>_result.<ext>")),
  ["likelihood calls made by the rerun, returned result"])

p("P12", "Reweighting gives the same weights however it is interrupted or parallelised",
  "Reweighting a result to a new likelihood or prior uses, for every sample, the new and old likelihood and prior of "
  "that sample, so the weights and the new evidence are the same for every number of worker processes and every "
  "completion order. A reweighting that is interrupted at any point and run again gives exactly the result of an "
  "uninterrupted one, and leaves the original result unchanged.",
  ["crash_points", "schedules", "fault_sequences", "inputs"],
  "every interruption point, number of workers, completion order, and checkpoint interval",
  "Tests reweight in one go, serially.",
  ["bilby/core/result.py"],
  M(("resumable evaluation", "result.py:get_weights_for_reweighting"), ("reweight", "result.py:reweight")),
  ST(("resume file", "likelihoods and priors computed so far", "reweighting resume file")),
  ["returned weights, log evidence, likelihood evaluations"])

p("P13", "Posterior reconstruction is complete and independent of workers and restarts",
  "Reconstructing marginalised parameters and derived quantities of a posterior yields one value for every sample, in "
  "sample order, whatever the number of workers, the completion order and the block size, and also when it was "
  "interrupted at any point and restarted, with the same or other settings. A cached reconstruction is used only for "
  "exactly the samples it was made from.",
  ["crash_points", "schedules", "configurations", "fault_sequences"],
  "every interruption point, block size, pool size, completion order and pre-existing cache",
  "Tests reconstruct a handful of samples serially, in one go.",
  ["bilby/gw/conversion.py", "bilby/gw/likelihood/base.py", "bilby/core/result.py"],
  M(("blocked, cached reconstruction", "conversion.py:generate_posterior_samples_from_marginalized_likelihood"),
    ("parallel map", "conversion.py:compute_snrs, fill_sample")),
  ST(("cache file", "blocks done", "<outdir>/.<label>_generate_posterior_cache.pickle")),
  ["returned samples", "cache file"])

p("P14", "Checkpoints keep their cadence and times stay true when the clock misbehaves",
  "During sampling, checkpoints are written once the configured interval has passed, and not at every look at the clock, and "
  "the work lost to a crash is bounded by that interval plus the work between two looks. Clock jumps, forwards and backwards, "
  "stalls and downtime never stop the sampler, disable or delay later checkpoints, or make the reported sampling time negative, "
  "less than the time already recorded or more than the time really spent.",
  ["schedules", "fault_sequences", "configurations"],
  "every checkpoint interval, evaluation cost and sequence of clock jumps and stalls",
  "Tests run with the machine's healthy clock.",
  ["bilby/core/sampler/dynesty.py", "bilby/core/sampler/ptemcee.py", "bilby/bilby_mcmc/sampler.py"],
  M(("cadence check", "write_current_state call sites and check_point_delta_t"), ("time keeping", "_update_sampling_time")),
  ST(("last checkpoint time", "when the state was last saved", "file modification time or sampler attribute")),
  ["times and contents of checkpoint writes, result.sampling_time"])

p("P15", "Parallel evaluation gives every point its own value under every schedule",
  "Evaluating the likelihood, the prior transform or a proposal through a worker pool returns for every point the value "
  "serial evaluation gives, in order, whatever the number of workers, chunking or completion order. Random draws made by different workers are independent: workers never replay the same random stream.",
  ["schedules", "configurations"],
  "every pool size, chunk assignment and completion order",
  "Tests use a pool of one or two workers under whatever schedule the machine picks.",
  ["bilby/core/sampler/base_sampler.py", "bilby/bilby_mcmc/sampler.py", "bilby/core/sampler/dynesty.py",
   "bilby/gw/conversion.py"],
  M(("pool set-up", "base_sampler.py:_initialize_global_variables, _setup_pool"),
    ("random state", "utils/random.py"), ("chain-parallel steps", "bilby_mcmc/sampler.py:call_step")),
  ST(("worker globals", "likelihood, priors, keys of the worker", "base_sampler._sampling_convenience_dump")),
  ["values and random draws returned by workers"])

p("P16", "Precomputed tables on disk are used only when complete and matching",
  "A likelihood built with a distance lookup table, ROQ or multiband weights, or calibration draws kept on disk gives the "
  "same values as one that computed them itself. A file that is missing, truncated or corrupt, a lookup table made for "
  "other settings, or a calibration file with too few curves is rebuilt or rejected and never silently used, and an "
  "interrupted or failed write of such a file never causes a later run to fail or to use wrong values. Calibration curves "
  "keep the parameters they were drawn with.",
  ["crash_points", "fault_sequences", "configurations", "histories"],
  "every crash and failure instant of writing a table, every corruption, every mismatch between stored and requested "
  "settings",
  "Tests write a table and read it straight back.",
  ["bilby/gw/likelihood/base.py", "bilby/gw/likelihood/roq.py", "bilby/gw/likelihood/multiband.py",
   "bilby/gw/detector/calibration.py"],
  M(("lookup table cache", "gw/likelihood/base.py:load_lookup_table, cache_lookup_table, _test_cached_lookup_table"),
    ("weights", "roq.py:save_weights/load_weights, multiband.py:save_weights")),
  ST(("table file", "precomputed integral", "distance_marginalization_lookup_table"), ("weights file", "projections",
     "weights files")),
  ["log likelihood values", "table files"])

p("P17", "In-memory caches never change what a model or likelihood returns",
  "The value returned for a parameter set by a waveform generator, noise curve, strain data, or likelihood depends only on "
  "that parameter set and the current settings: not on which calls came before, on settings changed in between or refused, "
  "on a previous call that failed or was interrupted part-way, on whether the object was copied or pickled, or on what a "
  "caller did to a waveform, strain or noise curve it was given earlier or to its own frequency grid. The same holds for "
  "a detector's geometry and responses. Values in the caller's parameter dictionary are left as they were (derived ones "
  "may be added).",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of calls, setting changes, caller mutations and mid-call failures",
  "Tests call each object once or twice in a fixed order.",
  ["bilby/gw/waveform_generator.py", "bilby/gw/detector/psd.py", "bilby/gw/detector/strain_data.py",
   "bilby/gw/likelihood/base.py", "bilby/gw/likelihood/roq.py", "bilby/gw/likelihood/relative.py",
   "bilby/gw/detector/geometry.py", "bilby/gw/detector/interferometer.py", "bilby/core/series.py"],
  M(("waveform cache", "waveform_generator.py:_calculate_strain"), ("noise curve cache", "psd.py:_update_cache"),
    ("domain conversion cache", "strain_data.py"), ("basis number cache", "roq.py")),
  ST(("caches", "last parameters and outputs", "object attributes")),
  ["returned values compared with a fresh object"])

p("P18", "A seeded analysis is repeatable",
  "With a fixed seed, prior draws, simulated noise, injections and a complete sampler run give identical results on every "
  "repetition, whatever the clock, hash seed, operating-system entropy, process id, scheduling of workers, earlier use of the "
  "process, and whether checkpoints are written along the way (bilby-mcmc renews its convergence estimates on the cadence of "
  "prints and checkpoints and is repeatable at equal cadence). Different seeds give different draws.",
  ["schedules", "configurations"],
  "every seed, clock, hash seed, entropy source, schedule and checkpoint cadence",
  "Tests repeat a draw in the same process, with the same clock and hash seed.",
  ["bilby/core/utils/random.py", "bilby/core/prior/base.py", "bilby/core/sampler/dynesty.py",
   "bilby/core/sampler/base_sampler.py", "bilby/gw/detector/strain_data.py"],
  M(("global generator", "utils/random.py:rng, seed, generate_seeds"), ("sampler seed", "seed kwargs of samplers")),
  ST(("generator", "process-wide random state", "bilby.core.utils.random")),
  ["samples, noise, results under varied environments"])

p("P19", "Other saved data products survive failures and read back unchanged",
  "Saving a grid, an interferometer or network, strain data, prior files or posterior samples either completes, and then "
  "reading back gives an equal object, or reports the failure to the caller. A crash, full disk or disk error at any point of "
  "saving over an earlier file leaves a complete file, the new one or the old one (possibly under its backup name), and "
  "never one that reads back as different data. Saving changes neither the object nor other files.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash and failure instant of saving each kind of product, and its contents",
  "Tests save on a healthy disk.",
  ["bilby/core/grid.py", "bilby/gw/detector/interferometer.py", "bilby/gw/detector/networks.py",
   "bilby/core/prior/dict.py", "bilby/core/prior/base.py", "bilby/core/prior/joint.py"],
  M(("save and load", "Grid.save_to_file/read, Interferometer.to_pickle/from_pickle/save_data, PriorDict.to_file/to_json, "
     "Result.save_posterior_samples")),
  ST(("product file", "saved object", "outdir")),
  ["files after a failure, objects read back"])

p("P20", "Priors with shared state give every caller consistent joint values",
  "For plain, correlated (joint), conditional and Dirichlet prior sets, sampling, rescaling or evaluating parameters, one "
  "point or a batch, gives the jointly consistent value of the prior set's current entries, whatever calls were made, "
  "interleaved, repeated or aborted before, whatever entries were changed in between, in whatever order the parameters are "
  "asked for, and also after the prior set was copied, pickled or sent to a worker.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and interleaving of requests, partial requests, failures, changes of entries and copies",
  "Tests make one complete request on a fresh object.",
  ["bilby/core/prior/joint.py", "bilby/core/prior/conditional.py", "bilby/core/prior/dict.py", "bilby/gw/prior.py"],
  M(("request bookkeeping", "joint.py:BaseJointPriorDist, JointPrior"), ("conditions", "conditional.py"),
    ("resolution and normalisation", "dict.py:PriorDict, ConditionalPriorDict")),
  ST(("pending requests", "values asked for so far", "BaseJointPriorDist.requested_parameters, _current_sample"),
     ("resolved order", "which entries are conditional and in what order", "ConditionalPriorDict")),
  ["samples, rescaled values, probabilities compared with a fresh object and closed forms"])

# -- stated, but outside the technique (see not_applicable) ----------------
p("P31", "Every prior's density, distribution, sampling and rescaling agree",
  "For every prior and every valid setting, rescaling is the inverse of the cumulative distribution, the density "
  "integrates to one and is its derivative, samples follow it, and it is zero outside its bounds.",
  ["inputs", "configurations"], "all priors, settings and arguments", "Tests use a few settings per prior.",
  ["bilby/core/prior/analytical.py", "bilby/gw/prior.py"], M(("closed forms", "prior classes")), [],
  ["prob, cdf, rescale, sample"])
p("P32", "Parameter conversions are mutually consistent and invertible",
  "Converting between mass, spin, tidal, distance and time parametrisations and back returns the original values for "
  "every physical parameter set, and never changes parameters that were given.",
  ["inputs"], "all physical parameter values", "Tests use one or two parameter sets.",
  ["bilby/gw/conversion.py"], M(("formulae", "conversion.py")), [], ["converted values"])
p("P33", "Marginalised likelihoods equal the numerical marginal of the full likelihood",
  "For every marginalisation option and parameter set the marginalised likelihood equals the integral of the full "
  "likelihood over the marginalised parameters, within the stated accuracy.",
  ["inputs", "configurations"], "all parameter sets, data and options", "Tests check a few configurations.",
  ["bilby/gw/likelihood/base.py"], M(("marginalisation", "gw/likelihood/base.py")), [], ["log likelihood values"])
p("P34", "Fast likelihood approximations agree with the exact likelihood",
  "Relative-binning, multi-banded and reduced-order likelihoods agree with the exact likelihood within their stated error "
  "over the prior.",
  ["inputs", "configurations"], "all parameter sets in the prior", "Tests compare at a few points.",
  ["bilby/gw/likelihood/relative.py", "bilby/gw/likelihood/multiband.py", "bilby/gw/likelihood/roq.py"],
  M(("approximation", "the likelihood classes")), [], ["log likelihood values"])
p("P35", "Detector response, time delays and noise statistics are physically consistent",
  "Antenna patterns, arrival-time differences and optimal and matched-filter signal-to-noise ratios obey their defining "
  "relations for every sky position, time and polarisation.",
  ["inputs"], "all sky positions, times, detectors", "Tests compare stored numbers.",
  ["bilby/gw/detector/geometry.py", "bilby/gw/utils.py"], M(("formulae", "geometry.py")), [], ["returned values"])
