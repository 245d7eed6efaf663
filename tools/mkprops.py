"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable in one place)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

SRUN = "Two sampler tests run one unimodal 2-D Gaussian with default options and assert nothing about the output."

prop("C01", "Every recorded particle is one self-consistent record",
 "Every particle that the sampler records or passes from one stage to the next carries only its own data: latent position, parameter position, Jacobian term, log-likelihood, log-prior and blob all describe the same point. This holds through the replacement of unusable prior draws, reweighting, resampling and every MCMC accept/reject decision, for every kernel and with or without blobs.",
 ["inputs", "histories", "configurations"], "all likelihoods, priors, kernels, resampling schemes, blob settings and iterations",
 SRUN + " A row mix-up leaves shapes intact and only biases the result.",
 ["pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/particles.py"],
 [("warm-up batch construction and replacement", "pocomc/sampler.py:Sampler.run"), ("selection of trimmed particles", "pocomc/sampler.py:Sampler._reweight"),
  ("selection of resampled particles", "pocomc/sampler.py:Sampler._resample"), ("hand-over to and from the kernels", "pocomc/sampler.py:Sampler._mutate"), ("accept step of the four kernels", "pocomc/mcmc.py")],
 [("particle history", "one list per record field, one entry per iteration", "pocomc/particles.py:Particles.past")],
 ["Sampler.results", "Sampler.posterior()"])

prop("C02", "Posterior output rows stay aligned and correctly weighted",
 "For every combination of its options, row i of everything the posterior call returns (samples, weights or log-weights, log-likelihoods, log-priors, blobs) comes from the same recorded particle. Returned weights are the untempered-posterior importance weights of the recorded history, normalised over the returned rows, and resampled output is drawn with exactly these weights. The call leaves the recorded history unchanged.",
 ["inputs", "histories", "configurations"], "all option combinations of the posterior call, after any run history",
 "No test calls the posterior method at all; there are 2x2x2x2 option combinations and two resampling schemes.",
 ["pocomc/sampler.py", "pocomc/tools.py", "pocomc/particles.py"],
 [("posterior assembly", "pocomc/sampler.py:Sampler.posterior"), ("weight trimming", "pocomc/tools.py:trim_weights")], observe=["Sampler.posterior()"])

prop("C03", "MCMC acceptance is exact Metropolis-Hastings for the tempered posterior",
 "Every move of each of the four MCMC kernels is accepted with the Metropolis-Hastings probability for the tempered posterior: likelihood raised to the current inverse temperature, times prior, times the Jacobians of the reparameterisation and of the flow, with the proposal-density correction of the t-preconditioned Crank-Nicolson proposal and none for the symmetric random walk. Accepted particles take the proposed values and rejected particles keep theirs.",
 ["inputs", "histories", "configurations"], "all targets, temperatures, geometries, flows and both sample/precondition options",
 SRUN + " A wrong term in the acceptance ratio still yields plausible samples; only two of the four kernels could ever be reached by default-option tests.",
 ["pocomc/mcmc.py", "pocomc/tools.py", "pocomc/sampler.py"],
 [("Metropolis factors and accept step", "pocomc/mcmc.py:preconditioned_pcn, preconditioned_rwm, pcn, rwm"), ("sign of the flow Jacobian", "pocomc/tools.py:flow_numpy_wrapper"), ("kernel dispatch", "pocomc/sampler.py:Sampler._mutate")], observe=["Sampler.posterior()"])

prop("C04", "No likelihood call or accepted particle outside the usable prior support",
 "The user's likelihood is only ever called at finite parameter points with non-zero prior density. A proposal whose coordinates, Jacobian or prior are not finite, or whose likelihood is zero or undefined, is never accepted, and prior draws without a finite likelihood never enter the recorded history. An MCMC step in which no proposal is usable goes on without calling the likelihood, also with blobs of any type.",
 ["inputs", "histories", "configurations"], "all priors (including supports with holes), likelihoods returning -inf or NaN anywhere, and all kernels",
 "The tests use an everywhere-finite Gaussian with an everywhere-positive prior.",
 ["pocomc/mcmc.py", "pocomc/sampler.py"],
 [("finite masks around prior and likelihood evaluation", "pocomc/mcmc.py"), ("replacement of unusable prior draws", "pocomc/sampler.py:Sampler.run"), ("support filter of flow draws", "pocomc/sampler.py:Sampler._compute_evidence")], observe=["calls of the user's likelihood", "Sampler.results"])

prop("C05", "The temperature ladder is monotone from 0 to 1 and gates termination",
 "The inverse temperatures recorded by a run start at 0, never decrease and never exceed 1; the weights, the evidence value and the MCMC target of an iteration all belong to the temperature recorded for it. A run ends only when the recorded inverse temperature has reached 1 (within 1e-4) and the requested total sample size is reached under the chosen metric.",
 ["inputs", "histories", "configurations"], "all targets, particle numbers, metrics, dynamic on/off, resumed and continued runs",
 SRUN + " Ladder order and stopping rule are not asserted; the ladder depends on data-dependent bisection.",
 ["pocomc/sampler.py"], [("choice of the next temperature", "pocomc/sampler.py:Sampler._reweight"), ("stopping rule", "pocomc/sampler.py:Sampler._not_termination")], observe=["Sampler.results['beta']", "Sampler.results['logz']"])

prop("C06", "Importance weights and SMC evidence follow the persistent-sampling estimator",
 "The importance weight of every recorded particle at an inverse temperature is its tempered likelihood divided by the equal-weight mixture, over all recorded iterations, of their tempered likelihoods divided by their evidence values; the evidence estimate is the mean of these unnormalised weights over all particles. Warm-up iterations enter with inverse temperature zero and the fraction of usable prior draws as evidence. When no flow-based estimate is requested the reported evidence is this estimate at inverse temperature one.",
 ["inputs", "histories"], "all recorded histories and inverse temperatures", "No test checks a weight or an evidence value.",
 ["pocomc/particles.py", "pocomc/sampler.py"], [("mixture weights and evidence", "pocomc/particles.py:Particles.compute_logw_and_logz"), ("warm-up record and final evidence", "pocomc/sampler.py:Sampler.run")], observe=["Sampler.results['logw']", "Sampler.results['logz']", "Sampler.evidence()"])

prop("C07", "Flow-based evidence is the mean importance weight over all flow draws",
 "With preconditioning and a positive number of evidence samples, the reported evidence is the average over all draws from the flow of likelihood times prior times reparameterisation Jacobian divided by the flow density, every factor taken at the same draw and draws outside the prior support counting as zero. The reported error is the bootstrap standard deviation of that same estimator.",
 ["inputs", "configurations"], "all priors, likelihoods, flows and sample numbers", "No test looks at the evidence; the support of the test prior is the whole space.",
 ["pocomc/sampler.py"], [("importance-sampling evidence", "pocomc/sampler.py:Sampler._compute_evidence")], observe=["Sampler.evidence()"])

prop("C08", "A crash during a save never damages an existing checkpoint",
 "Whatever the crash point during a save, the checkpoint path holds either its complete previous content or the complete new state, never a partial file and never nothing where a checkpoint existed. The new content is written in full to another file in the same directory, flushed and forced to disk before it is renamed onto the checkpoint path.",
 ["crash_points"], "every crash point of every checkpoint write", "The tests save without crashing; a crash point cannot be sampled by a passing save.",
 ["pocomc/sampler.py"], [("write-flush-sync-rename", "pocomc/sampler.py:Sampler.save_state")], observe=["the checkpoint path"])

prop("C09", "Checkpoints are complete and resuming continues exactly where the run stopped",
 "A checkpoint contains the whole sampler state except the progress bar and the worker pool, is taken only between iterations, saving does not alter the running sampler, and loading restores every stored value over those of the loading sampler. Resuming any checkpoint of a run continues with the next iteration: no recorded iteration is lost, repeated or started over, also during warm-up. With save_every=k a run writes {output_dir}/{output_label}_{i}.state whenever k more iterations are complete (i being the iteration index) and {output_dir}/{output_label}_final.state at the end.",
 ["histories", "crash_points", "configurations"], "every iteration at which a checkpoint can be taken, every option combination, any number of resumes",
 "One test resumes from one warm-up checkpoint and asserts only that it does not raise.",
 ["pocomc/sampler.py", "pocomc/particles.py"], [("state capture and restore", "pocomc/sampler.py:Sampler.save_state, load_state"), ("resume logic and save points", "pocomc/sampler.py:Sampler.run")], observe=["state files", "Sampler.results"])

prop("C10", "A seeded run is reproducible",
 "When a random seed is given (any integer, zero included), every random number the package draws comes from the global NumPy or PyTorch generator, both are seeded from it before anything is drawn, and nothing reseeds or replaces them afterwards. No result depends on the clock, the process or hash order.",
 ["inputs", "histories", "configurations"], "all seeds, targets and options that evaluate the likelihood deterministically", "No test compares two seeded runs.",
 ["pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/tools.py", "pocomc/flow.py", "pocomc/geometry.py", "pocomc/prior.py"], [("seeding", "pocomc/sampler.py:Sampler.__init__"), ("all draws", "pocomc/*")], observe=["Sampler.results for two runs with equal seed"])

prop("C11", "Every documented option value is honoured and every other value is rejected",
 "Each string option of the sampler (transform, metric, MCMC kernel, resampling scheme, flow) accepts exactly its documented values and raises ValueError on construction for any other; each accepted value selects its own documented implementation everywhere the option matters. Vectorised likelihoods with blobs and missing particle numbers are rejected, and an unset active or effective particle number, prior size or step number falls back to a value derived from the given ones.",
 ["configurations"], "all values of all options and their combinations", "The tests use default option values only.",
 ["pocomc/sampler.py", "pocomc/scaler.py", "pocomc/flow.py"], [("validation and defaults", "pocomc/sampler.py:Sampler.__init__"), ("flow table", "pocomc/flow.py:Flow.__init__"), ("dispatch", "pocomc/sampler.py:_mutate, _resample, _reweight, _not_termination, posterior; pocomc/scaler.py:_forward_both, _inverse_both")], observe=["constructor outcome", "which kernel/metric/scheme runs"])

prop("C12", "Each point gets its own likelihood value, in order, however it is evaluated",
 "Serial, pool-based and vectorised evaluation call the user's likelihood exactly once for each requested point, with the user's extra arguments, and hand back values and blobs in the order of the points. With a pool the evaluation is distributed over it; an integer pool above one creates a pool of that size.",
 ["inputs", "configurations", "schedules"], "all point sets, pool kinds and sizes, blob layouts and completion orders", "No test uses a pool or blobs.",
 ["pocomc/sampler.py", "pocomc/tools.py"], [("dispatch and unpacking", "pocomc/sampler.py:Sampler._log_like"), ("argument binding", "pocomc/tools.py:FunctionWrapper")], observe=["calls of the user's likelihood", "Sampler.results"])

prop("C13", "The reported number of likelihood calls is the number of evaluations made",
 "The likelihood-call count that a run records per iteration and keeps as its total equals the number of points at which the likelihood has been evaluated so far in warm-up, MCMC and evidence estimation. It is cumulative and is never reset or reduced when a run is continued or resumed.",
 ["inputs", "histories", "configurations"], "all targets, kernels, continued and resumed runs", "No test reads the counter.",
 ["pocomc/sampler.py", "pocomc/mcmc.py"], [("counters", "pocomc/sampler.py:Sampler.run, _mutate, _compute_evidence; pocomc/mcmc.py")], observe=["Sampler.results['calls']"])

prop("C14", "The reparameterisation is a bijection with its exact Jacobian",
 "For every mix of unbounded, one-sided and two-sided parameters and for both transforms, the inverse map sends latent points into the bounds, the forward map undoes it, and the returned log-Jacobian is exactly the log-determinant of the derivative of the inverse map, rescaling included. Points on the edge of a two-sided parameter stay finite in latent space, and points outside the bounds are rejected with ValueError unless the check is switched off.",
 ["inputs", "configurations"], "all bounds, transforms, scaling modes and points", "The tests use one kind of bound at a time, the default transform only, and never look at the Jacobian.",
 ["pocomc/scaler.py", "pocomc/input_validation.py"], [("forward, inverse and Jacobians", "pocomc/scaler.py:Reparameterize"), ("parameter classification", "pocomc/scaler.py:Reparameterize._create_masks"), ("interval check", "pocomc/input_validation.py:assert_array_within_interval")], observe=["Reparameterize.forward/inverse"])

prop("C15", "Boundary conditions move parameters into range by period or reflection only",
 "A periodic parameter is shifted by whole multiples of its range, a reflective one is mirrored about its bounds, until it lies within them; in-range values, all other parameters and the caller's array are left as they are. Whenever the MCMC kernels apply boundary conditions, the latent position and Jacobian are recomputed from the corrected point before prior and likelihood are evaluated there.",
 ["inputs", "configurations"], "all bounds, index lists and points, all kernels", "No test uses periodic or reflective parameters.",
 ["pocomc/scaler.py", "pocomc/mcmc.py"], [("wrap and reflect", "pocomc/scaler.py:Reparameterize.apply_boundary_conditions_x"), ("use in the kernels", "pocomc/mcmc.py")], observe=["Reparameterize.apply_boundary_conditions_x", "Sampler.results"])

prop("C16", "The composite prior is the product of its one-dimensional priors",
 "The log-density of a point is the sum over parameters of each parameter's own distribution evaluated at that parameter's coordinate; drawing n points yields an n-by-dimension array whose columns are draws of n values from the respective distributions, in order. Bounds list each distribution's support in the same order, and the dimension is the number of distributions.",
 ["inputs", "configurations"], "all lists of distributions and all points", "The tests use identical distributions in every slot, so swapped or repeated columns are invisible.",
 ["pocomc/prior.py"], [("prior methods", "pocomc/prior.py:Prior")], observe=["Prior.logpdf/rvs/bounds/dim"])

prop("C17", "Recorded history is append-only and results always show all of it",
 "Once an iteration is recorded its data never changes, whatever the sampler does next, and nothing recorded is removed or reordered. The results always cover every recorded iteration, warm-up included and also after the run has been continued, with one entry per iteration for each documented key (the importance log-weights: one per recorded particle) and iteration indices counting up by one from zero.",
 ["histories"], "all sequences of run, continue, resume, posterior and results calls", "No test reads the results.",
 ["pocomc/particles.py", "pocomc/sampler.py", "pocomc/mcmc.py"], [("history and results", "pocomc/particles.py:Particles"), ("copies on hand-over", "pocomc/sampler.py:Sampler._mutate; pocomc/mcmc.py")], observe=["Sampler.results"])

prop("C18", "The MPI pool returns one result per task, in task order",
 "Mapping a function over tasks with the MPI pool returns exactly one result per task, each at the position of its task, for every number of workers and every order in which workers finish; a worker is given a new task only after its previous result has been collected, and workers quit when the pool is closed.",
 ["schedules", "inputs", "configurations"], "all worker counts, task lists and message orders", "No test uses MPI; it is not even installed.",
 ["pocomc/parallel.py"], [("master loop and worker loop", "pocomc/parallel.py:MPIPool.map, wait, close")], observe=["MPIPool.map"])

prop("C19", "Flow training uses each sample with its own weight on disjoint data sets",
 "When the flow is trained every sample keeps its own importance weight through shuffling, splitting and batching; the training and validation sets are disjoint and together exhaust the data, the validation fraction being the one requested. Early stopping restores the parameters with the best monitored loss, which is the validation loss if there is a validation set, and the sampler trains the flow and its geometry on the current particles with the current weights. A preconditioned run trains the flow in its first iteration, in every iteration whose index is a multiple of train_frequency and whenever the inverse temperature is one; flow and geometry are always brought up to date before the MCMC stage of the iteration uses them.",
 ["inputs", "configurations"], "all sample sets, weights and training options", "The flow tests train without weights and without validation split.",
 ["pocomc/flow.py", "pocomc/sampler.py", "pocomc/geometry.py"], [("training loop", "pocomc/flow.py:Flow.fit"), ("training call", "pocomc/sampler.py:Sampler._train"), ("geometry fit", "pocomc/geometry.py:Geometry.fit")], observe=["Flow.fit"])

prop("C20", "Resampling draws the requested number of valid indices with the given weights",
 "Both resampling schemes return exactly the requested number of valid particle indices drawn with probabilities given by the normalised weights. In systematic resampling the positions are equally spaced with one common random offset, and weights that miss unit sum by rounding never make it fail.",
 ["inputs"], "all weight vectors and sizes", "Resampling is not tested.",
 ["pocomc/tools.py", "pocomc/sampler.py"], [("systematic resampling", "pocomc/tools.py:systematic_resample"), ("scheme selection", "pocomc/sampler.py:Sampler._resample, posterior")], observe=["systematic_resample", "Sampler.posterior(resample=True)"])

prop("C21", "Sample-size measures and weight trimming follow their definitions",
 "The effective sample size is the reciprocal sum of squared normalised weights and the unique sample size the expected number of distinct particles in k draws, both unchanged by rescaling the weights. Trimming removes only the particles with the smallest weights, keeps at least the requested fraction of the effective sample size, and returns the kept samples with their own weights normalised to one.",
 ["inputs"], "all weight vectors, thresholds and bin numbers", "One test checks one of these measures on a single particle.",
 ["pocomc/tools.py"], [("measures and trimming", "pocomc/tools.py:effective_sample_size, unique_sample_size, compute_ess, trim_weights")], observe=["the functions' results"])

prop("C22", "Every MCMC stage is bounded and keeps a valid proposal scale",
 "Each MCMC stage makes at least one step and never more than the configured maximum number of steps, and reports the number of steps made. The adapted proposal scale never becomes negative, and for the t-preconditioned Crank-Nicolson kernels it never reaches one, so that proposals stay real-valued; the scale a stage ends with is the one the next stage starts from. Within its limits (zero and, for Crank-Nicolson kernels, the smaller of 2.38/sqrt(n_dim) and 0.99) the scale moves up in every step whose mean acceptance probability is above 0.234 and down if it is below, by steps that die out over the stage. The stage reports the mean acceptance probability of its last step, and as efficiency its final scale relative to 2.38/sqrt(n_dim).",
 ["inputs", "histories", "configurations"], "all targets, acceptance histories, dimensions and step limits", "The tests do not look at steps or scales and use two dimensions only.",
 ["pocomc/mcmc.py", "pocomc/sampler.py"], [("loop limits and scale adaptation", "pocomc/mcmc.py"), ("scale hand-over", "pocomc/sampler.py:Sampler._mutate")], observe=["Sampler.results['steps']", "Sampler.results['efficiency']"])

prop("C23", "Each temperature step is as large as the target sample size allows",
 "The inverse temperature that an iteration moves to is decided by the configured sample-size metric (ESS or unique sample size) of the importance weights of the whole history and its target: it stays at the previous value only if the metric there does not exceed the target, it becomes 1 only if the metric at 1 still reaches the target, and otherwise it is a temperature at which the metric is within 1 % of the target. The recorded sample size is that metric at the recorded temperature. The target starts at n_effective; it is constant if dynamic=False, and with dynamic=True it is only rescaled when the expected number of unique active particles leaves the band of 95-105 % around its initial ratio.",
 ["inputs", "histories", "configurations"], "all targets and histories, both metrics, with and without dynamic adjustment", "Tests run a few targets and never look at the sample sizes of the iterations.",
 ["pocomc/sampler.py"], [("choice of the temperature and adjustment of the target", "pocomc/sampler.py:Sampler._reweight")], observe=["Sampler.results['beta']", "Sampler.results['ess']", "Sampler.n_effective"])

prop("C24", "Display, verbosity and checkpointing options do not influence the computation",
 "Whether a progress bar is shown, how verbose the training of the flow is and whether and how often the state is saved has no influence on anything a run computes: for every value of progress, save_every and the verbosity, the particles, weights, evidence, counters, flow and proposal scale are the same, the same random numbers are drawn, and the likelihood and the prior are evaluated at the same points.",
 ["configurations", "histories"], "all values of the options, all targets and histories", "Tests never compare runs that differ in these options only.",
 ["pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/flow.py", "pocomc/tools.py"],
 [("run loop and checkpointing", "pocomc/sampler.py:Sampler.run"), ("progress updates in the kernels", "pocomc/mcmc.py"), ("verbosity", "pocomc/flow.py:Flow.fit"), ("progress bar", "pocomc/tools.py:ProgressBar")],
 observe=["Sampler.results", "Sampler.posterior()", "Sampler.evidence()", "the calls of the likelihood", "the state of numpy's and torch's generators"])

prop("C25", "The caller's arguments are left unchanged",
 "No function or method of the package changes an array, list, dictionary or object that its caller passes in: the sample-size measures, trimming and resampling leave the weights they are given, the prior and the reparameterisation leave the points, bounds and lists, the fits of scaler, geometry, Student-t distribution and flow leave the samples and weights, the MCMC kernels leave the dictionaries they are given and the arrays in them (positions, likelihoods, blobs ...), and the sampler leaves the training configuration, the likelihood's extra arguments, the boundary-condition lists, the prior and the likelihood object.",
 ["inputs", "configurations"], "all argument values, transforms, pool and vectorisation options", "Tests never look at their arguments after a call.",
 ["pocomc/tools.py", "pocomc/prior.py", "pocomc/scaler.py", "pocomc/geometry.py", "pocomc/student.py", "pocomc/flow.py", "pocomc/mcmc.py", "pocomc/sampler.py"],
 [("sample-size measures and trimming", "pocomc/tools.py:effective_sample_size, unique_sample_size, compute_ess, trim_weights, systematic_resample"), ("fits", "pocomc/scaler.py:Reparameterize.fit, pocomc/geometry.py:Geometry.fit, pocomc/student.py:fit_mvstud, pocomc/flow.py:Flow.fit"), ("kernels", "pocomc/mcmc.py:preconditioned_pcn, preconditioned_rwm, pcn, rwm"), ("options", "pocomc/sampler.py:Sampler.__init__")],
 observe=["the arguments after the call"])

prop("C26", "The Student-t fit follows the EM algorithm of the multivariate t distribution",
 "The fit of the multivariate Student-t distribution starts from the coordinate-wise median of the samples and their covariance matrix (1/n normalisation) plus 1/n of its diagonal, and iterates the EM algorithm on the samples it is given: in every iteration the degrees of freedom solve the score equation of the t likelihood at the current mean and scale matrix (or are infinite exactly when the score has no sign change up to the largest tried value, and then the current mean and scale matrix are returned with them; that decision depends on the samples, i.e. the score is not evaluated where double precision rounds the samples away), the new mean is the average of the samples weighted with (nu+dim)/(nu+Mahalanobis distance), and the new scale matrix is the weighted scatter around the previous mean divided by the number of samples. It ends when the degrees of freedom change by at most the tolerance or after max_iter iterations, and the geometry used by the proposals takes over the fitted mean, scale matrix and degrees of freedom, replacing only infinite degrees of freedom by a large finite number.",
 ["inputs"], "all samples, dimensions, tolerances and iteration limits", "No test looks at the fit.",
 ["pocomc/student.py", "pocomc/geometry.py"], [("EM iteration", "pocomc/student.py:fit_mvstud"), ("finite degrees of freedom", "pocomc/geometry.py:Geometry.fit")],
 observe=["return value of fit_mvstud", "attributes t_mean, t_cov, t_nu of Geometry"])

prop("C27", "The flow is one density with one transform, whichever way it is called",
 "Flow.forward and Flow.inverse apply the transform of the wrapped flow and its inverse, and return with the mapped points the log-determinant of exactly that map at those points; Flow.log_prob is the flow's own log-density at the given points; Flow.sample returns exactly the requested number of draws together with the log-density of the same draws, in the same order. The NumPy adapter used by the kernels maps points in the same way and returns in both directions the log-determinant of the latent-to-original map (so the one of the forward map negated). Double-precision input is converted to single precision, with or without a warning, and other types are rejected. The regularisation penalty is the sum over all conditioner weights (not biases) of every transform of |w|/laplace_scale plus w^2/(2 gaussian_scale^2), each part only if its scale is given, and every training loss, as well as every recorded training and validation loss, adds it exactly once per batch to the negative log-density.",
 ["inputs"], "all points, flows, numbers of draws, data types, networks and regularisation scales", "The tests compare shapes and a few values of an untrained flow.",
 ["pocomc/flow.py", "pocomc/tools.py"], [("flow API", "pocomc/flow.py:Flow"), ("penalty", "pocomc/flow.py:regularization_loss"), ("adapter", "pocomc/tools.py:flow_numpy_wrapper"), ("cast", "pocomc/tools.py:torch_double_to_float")],
 observe=["return values of Flow.forward, inverse, log_prob, sample", "return values of flow_numpy_wrapper", "loss passed to backward"])

prop("C28", "An MCMC stage ends when the log-density of the particles has levelled off",
 "In every kernel a stage ends exactly when its step limit is reached or when the mean over the active particles of their log-density (log-likelihood plus log-prior, for the random-walk kernels plus the log-Jacobian) has not risen strictly above the best value since the start of the stage for as many consecutive steps as the patience: n_steps times ((2.38/sqrt(n_dim))/scale)^2 with the current proposal scale (for the random walk in flow space the factor is at most 1). Steps that raise the best value start the count again.",
 ["histories", "inputs"], "all histories of log-densities, acceptance rates, dimensions and step options", "No test looks at when a stage ends.",
 ["pocomc/mcmc.py"], [("loop termination criteria", "pocomc/mcmc.py:preconditioned_pcn, preconditioned_rwm, pcn, rwm")],
 observe=["steps returned by the kernels", "Sampler.results['steps']"])

prop("C29", "Log-likelihoods of any magnitude leave weights, evidence and acceptance finite",
 "The size of the log-likelihood values does not matter, only their differences: the importance weights used by a run and returned by posterior, the sample sizes, the evidence with its error and the acceptance probabilities are computed without overflow or underflow of exponentials. Log-weights are exponentiated only relative to their maximum or their log-sum, sums of weights are formed in the log domain, and a kernel exponentiates only quantities that do not change when a constant is added to the log-likelihood.",
 ["inputs", "histories"], "log-likelihoods of any finite magnitude and offset", "The tests use targets whose log-likelihoods are of order one to a hundred.",
 ["pocomc/particles.py", "pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/tools.py"],
 [("weights and evidence", "pocomc/particles.py:compute_logw_and_logz, pocomc/sampler.py:_reweight, _not_termination, _compute_evidence, posterior, pocomc/tools.py:compute_ess, increment_logz"), ("acceptance", "pocomc/mcmc.py")],
 observe=["Sampler.posterior", "Sampler.evidence", "Sampler.results"])

# ---- not applicable to this family
prop("C30", "Weighted samples converge to the posterior",
 "As the number of particles grows, weighted averages over the returned samples converge to posterior expectations.",
 ["inputs"], "all integrable functions and targets", "Asymptotic statement about distributions.",
 ["pocomc/sampler.py"], [("whole algorithm", "pocomc/sampler.py:Sampler.run")])
prop("C31", "The temperature search and the whole run terminate",
 "For every target with finite likelihoods the search for the next temperature ends after finitely many halvings and the run reaches inverse temperature one in finitely many iterations.",
 ["inputs"], "all targets", "Depends on floating-point behaviour of data-dependent sample sizes.",
 ["pocomc/sampler.py"], [("bisection", "pocomc/sampler.py:Sampler._reweight")])
prop("C32", "Reparameterisation round trips are accurate to floating-point precision",
 "Mapping a point to latent space and back reproduces it to within a few units in the last place over the whole representable range.",
 ["inputs"], "all finite points", "Quantifies over rounding errors.",
 ["pocomc/scaler.py"], [("forward and inverse", "pocomc/scaler.py:Reparameterize")])
prop("C33", "Training improves the flow and the Student-t fit converges",
 "Training never leaves the flow with a worse monitored loss than before and the Student-t fit converges to a stationary point of the likelihood.",
 ["inputs"], "all data sets", "Numerical optimisation outcome.",
 ["pocomc/flow.py", "pocomc/student.py"], [("optimisation loops", "pocomc/flow.py:Flow.fit, pocomc/student.py:fit_mvstud")])
prop("C34", "Parallel evaluation is deadlock-free and faster than serial",
 "Runs with a pool finish whenever the likelihood finishes, also when a worker raises, and take less wall-clock time for expensive likelihoods.",
 ["schedules", "fault_sequences"], "all schedules and worker failures", "Timing and liveness of external MPI/multiprocess runtimes.",
 ["pocomc/parallel.py"], [("pool", "pocomc/parallel.py:MPIPool")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
