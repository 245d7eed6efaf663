from . import kernel as k
from ..drive import Cfg
from ..report import Only

RULES = {}


def prop(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d


@prop('C03')
def c03(R, thorough):
    R.rule('mh-ratio', 'the exponent of the acceptance probability equals the log ratio of the tempered target times Jacobians '
           'plus the proposal correction, for every particle')
    for cfg in k.configs(blobs=(False, True)):
        K = R.guard('mh-ratio', k.kname(cfg), lambda: k.kernel(R, cfg))
        if K:
            R.guard('mh-ratio', K.site, lambda: k.mh_rule(R, K))
            R.guard('record', K.site, lambda: k.record_rule(R, K))


from . import runlevel as r


@prop('C01')
def c01(R, thorough):
    R.rule('record', 'every field of a particle leaving a kernel is the field of its position, given that it was so on entry')
    R.rule('record-invariant', 'every field of every container of particles is, at every loop head of a run, the function of '
           'the latent position in the same slot that its name says')
    R.rule('kernel-input', 'the particles handed to a kernel satisfy the record invariant')
    for cfg in k.configs(blobs=(False, True), bc=(False, True) if thorough else (False,)):
        K = R.guard('record', k.kname(cfg), lambda: k.kernel(R, cfg))
        if K:
            R.guard('record', K.site, lambda: k.record_rule(R, K))
    for cfg in r.configs(thorough):
        X = R.guard('record-invariant', r.rname(cfg), lambda: r.run(R, cfg))
        if X:
            R.guard('record-invariant', 'Sampler.run', lambda: r.record_rule(R, X))


from . import temper as tp


def views(R, rule, cfgs, **kw):
    for cfg in cfgs:
        X = R.guard(rule, r.rname(cfg), lambda: r.run(R, cfg, **kw))
        if not X:
            continue
        V = R.guard(rule, 'Sampler.run', lambda: tp.View(X))
        if V:
            yield cfg, X, V


@prop('C05')
def c05(R, thorough):
    R.rule('ladder-start', 'warm-up iterations are recorded at inverse temperature 0')
    R.rule('ladder-step', 'the inverse temperature recorded by an iteration is a convex combination of the previous one and 1 '
           '(inductive through the bisection loop)')
    R.rule('target-temperature', 'the temperature handed to the MCMC kernel is the recorded one')
    R.rule('evidence-temperature', 'the evidence recorded by an iteration is the estimator at the recorded temperature')
    R.rule('termination', 'every exit of the main loop implies beta >= 1 - 1e-4 and sample size >= n_total')
    for cfg, X, V in views(R, 'ladder-step', r.configs(thorough)):
        R.guard('ladder-step', V.main.loc, lambda: tp.hull_rule(R, X, V))
        R.guard('termination', V.main.loc, lambda: tp.exit_rule(R, X, V, cfg.metric))
        R.guard('smc-evidence', V.main.loc, lambda: tp.weights_rule(R, X, V))


@prop('C06')
def c06(R, thorough):
    H = R.guard('importance-weights', 'history', lambda: h.history(R, Cfg()))
    if H:
        R.guard('importance-weights', 'Particles.compute_logw_and_logz', lambda: h.logw_rule(R, H))
    for cfg, X, V in views(R, 'smc-evidence', r.configs(thorough)):
        R.guard('smc-evidence', V.main.loc, lambda: tp.weights_rule(R, X, V))
        R.guard('warm-up-evidence', V.main.loc, lambda: tp.warmup_rule(R, X, V))
        R.guard('final-evidence', V.main.loc, lambda: tp.final_smc_rule(R, X, V))


from . import kernel2 as k2


def kernels(R, rule, **kw):
    for cfg in k.configs(**kw):
        K = R.guard(rule, k.kname(cfg), lambda: k.kernel(R, cfg))
        if K:
            yield cfg, K


@prop('C04')
def c04(R, thorough):
    R.rule('support', 'at every likelihood call the selection of the evaluated rows implies finite coordinates and finite log-prior')
    R.rule('reject', 'with a non-finite coordinate, Jacobian or prior, or a likelihood of -inf or NaN, the accept condition is false')
    R.rule('warm-up-finite', 'every log-likelihood recorded in warm-up is finite')
    for cfg, K in kernels(R, 'support', blobs=(False, True), vec=(False, True) if thorough else (False,)):
        R.guard('support', K.site, lambda: k2.support_rule(R, K.I, K.dep.apply))
        R.guard('reject', K.site, lambda: k2.reject_rule(R, K))
    R.rule('never-empty', 'the likelihood is not called in a step in which no proposal is usable')
    for cfg, K in kernels(R, 'never-empty', blobs=(True,)):
        R.guard('never-empty', K.site, lambda: k2.empty_rule(R, K))
    for cfg, K in kernels(R, 'never-empty', vec=(True,)):
        R.guard('never-empty', K.site, lambda: k2.empty_rule(R, K))
    for cfg, X, V in views(R, 'support', r.configs(thorough)):
        R.guard('support', V.main.loc, lambda: k2.support_rule(R, X.I))
        R.guard('warm-up-finite', V.main.loc, lambda: tp.warm_finite_rule(R, X, V))


@prop('C13')
def c13(R, thorough):
    R.rule('calls', 'the counter is increased by exactly the number of points handed to the likelihood')
    for cfg, K in kernels(R, 'calls', blobs=(False, True), vec=(False, True), bc=(False, True) if thorough else (False,)):
        R.guard('calls', K.site, lambda: k2.calls_rule(R, K))
    for cfg, X, V in views(R, 'calls', r.configs(thorough)):
        R.guard('calls', V.main.loc, lambda: tp.calls_rule(R, X, V))


@prop('C22')
def c22(R, thorough):
    R.rule('adaptation', 'the scale moves towards an acceptance of 0.234, up with higher and down with lower acceptance, by steps that die out')
    R.rule('acceptance-reported', 'the acceptance a stage reports is the mean acceptance probability of its last step')
    R.rule('efficiency-reported', 'the efficiency a stage reports is its final scale relative to 2.38/sqrt(n_dim)')
    for cfg, K in kernels(R, 'scale', bc=(False, True) if thorough else (False,)):
        R.guard('steps-bounded', K.site, lambda: k2.bounds_rule(R, K))
        R.guard('scale', K.site, lambda: k2.scale_rule(R, K))
        R.guard('adaptation', K.site, lambda: k2.adapt_rule(R, K))
        R.guard('acceptance-reported', K.site, lambda: k2.report_rule(R, K))
    for cfg, X, V in views(R, 'scale', [c for c in r.configs(thorough)][:2]):
        R.guard('scale-handed-over', V.main.loc, lambda: tp.scale_rule(R, X, V))


@prop('C07')
def c07(R, thorough):
    R.rule('flow-evidence', 'the reported evidence is log mean over all flow draws of L * prior * Jacobian / flow density, zero '
           'outside the prior support')
    R.rule('flow-evidence-error', 'the reported error is the standard deviation of that estimator over bootstrap resamples')
    for cfg, X, V in views(R, 'flow-evidence', [c for c in r.configs(thorough) if c.precondition]):
        R.guard('flow-evidence', 'Sampler.run', lambda: tp.flow_rule(R, X, V))


from . import history as h


@prop('C02')
def c02(R, thorough):
    R.rule('posterior-rows', 'all returned arrays are the recorded fields read with one and the same particle index')
    R.rule('posterior-weights', 'returned weights are the untempered importance weights, normalised over the returned rows')
    R.rule('posterior-resample', 'resampled rows are drawn with exactly these weights')
    R.rule('history-unchanged', 'the recorded history is the same after the call')
    for cfg in (Cfg(), Cfg(blobs=True), Cfg(resample='syst'), Cfg(blobs=True, resample='syst')):
        H = R.guard('posterior-rows', 'history', lambda: h.history(R, cfg))
        if H:
            R.guard('posterior-rows', 'Sampler.posterior', lambda: h.posterior_rule(R, H))


from . import tools as tl


@prop('C20')
def c20(R, thorough):
    R.rule('number', 'as many indices are returned as requested')
    R.rule('positions', 'position i is (r + i)/size with one uniform offset r')
    R.rule('cumulative-weights', 'positions are compared with prefix sums of the normalised weights')
    R.rule('valid-index', 'the index never passes the last weight')
    R.rule('counter', 'the index starts at 0, grows by one and is carried from position to position')
    R.rule('resampling-weights', 'the sampler resamples with probabilities proportional to the importance weights')
    R.rule('resampling-size', 'the sampler draws n_active indices with replacement')
    R.guard('scheme', 'tools.systematic_resample', lambda: tl.syst_rule(R))
    for cfg, X, V in views(R, 'resampling-weights', [Cfg(), Cfg(resample='syst')] + (list(r.configs(True)) if thorough else [])):
        R.guard('resampling-weights', V.main.loc, lambda: tp.weights_rule(Only(R, 'resampling-weights', 'resampling-size'), X, V))
    for cfg in (Cfg(), Cfg(resample='syst')):
        H = R.guard('posterior-resample', 'history', lambda: h.history(R, cfg))
        if H:
            R.guard('posterior-resample', 'Sampler.posterior', lambda: h.posterior_rule(Only(R, 'posterior-resample'), H))


@prop('C21')
def c21(R, thorough):
    R.rule('size-definition', 'the measure equals its definition for every number of particles and unnormalised weights')
    R.rule('trim-rows', 'kept samples are the given ones')
    R.rule('trim-weights', 'kept weights are those of the kept samples, normalised')
    R.rule('trim-smallest', 'a row is kept if and only if its weight passes one common threshold')
    R.rule('trim-fraction', 'the search for the threshold only stops when the kept share of the effective sample size is large enough')
    R.rule('trim-fallback', 'the last threshold tried keeps every row')
    R.guard('size-definition', 'tools', lambda: tl.sizes_rule(R))
    R.guard('trim-rows', 'tools.trim_weights', lambda: tl.trim_rule(R))


from . import scaler as sc


@prop('C14')
def c14(R, thorough):
    R.rule('log-jacobian', 'the returned log-Jacobian is the sum over parameters of log |dx_j/du_j| (plus the log-determinant of the '
           'rescaling matrix), for each kind of parameter')
    R.rule('round-trip', 'forward(inverse(u)) is u for each kind of parameter')
    R.rule('within-bounds', 'inverse(u) lies within the bounds for each kind of parameter')
    R.rule('edge-finite', 'the forward map is finite on the bounds of a two-sided parameter')
    R.rule('bounds-check', 'forward raises ValueError exactly for points outside the bounds, unless the check is off')
    for tr in ('probit', 'logit'):
        for scale, diag in ((True, True), (True, False), (False, True)):
            R.guard('log-jacobian', 'Reparameterize(%s)' % tr, lambda: sc.bijection_rule(R, tr, scale, diag))
        R.guard('edge-finite', 'Reparameterize(%s)' % tr, lambda: sc.edge_rule(R, tr))
    R.guard('bounds-check', 'Reparameterize.forward', lambda: sc.reject_rule(R))
    R.guard('round-trip', 'Reparameterize(bounds=None)', lambda: sc.default_rule(R))


from . import boundary as bc


@prop('C15')
def c15(R, thorough):
    R.rule('frame', 'parameters without the boundary condition and other rows keep their value')
    R.rule('all-rows', 'every point is corrected')
    R.rule('callers-array', 'the given array is unchanged')
    R.rule('moves', 'each update is a shift by whole periods (periodic) or a mirror image about a bound (reflective)')
    R.rule('in-range-kept', 'in-range values are not updated')
    R.rule('in-range', 'after all updates the value lies within its bounds (exit conditions and loop invariants)')
    R.rule('wiring', 'the sampler hands its lists of periodic and reflective parameters to the reparameterisation')
    R.rule('applied', 'each kernel passes its proposal through the boundary conditions whenever there are any')
    R.rule('record', 'position, Jacobian, prior and likelihood of the proposal belong to the corrected point')
    for kind in ('periodic', 'reflective'):
        for n in (1, 2):
            R.guard('moves', kind, lambda: bc.bc_rule(R, kind, n))
    R.guard('moves', 'both', lambda: bc.bc_rule(R, 'both', 2))
    for b in (True, 'periodic', 'reflective'):
        R.guard('wiring', 'Sampler', lambda: bc.wiring_rule(R, b))
        for cfg in k.configs(bc=(b,)):
            R.guard('applied', 'kernel', lambda: bc.kernel_rule(R, cfg))


from . import prior as pr


@prop('C16')
def c16(R, thorough):
    R.rule('dimension', 'dim is the number of distributions')
    R.rule('log-density', 'logpdf is the sum over parameters of the log-density of the own distribution at the own coordinate')
    R.rule('draws', 'rvs has one row per draw and one column per parameter, each drawn from the own distribution')
    R.rule('bounds', 'row j of the bounds is the support of distribution j')
    R.rule('used', 'the sampler takes dimension and bounds from its prior')
    for n in (None, 1, 2, 3):
        R.guard('log-density', 'Prior', lambda: pr.prior_rule(R, n))
    for pat in ((0, 0), (0, 1, 0)):
        R.guard('log-density', 'Prior', lambda: pr.prior_rule(R, len(pat), pat))
    R.guard('used', 'Sampler', lambda: pr.use_rule(R, Cfg()))


from . import likelihood as lk


@prop('C12')
def c12(R, thorough):
    R.rule('value', 'entry i of the returned values is the likelihood of point i')
    R.rule('blob', 'entry i of the returned blobs belongs to point i')
    R.rule('once', 'the number of likelihood evaluations is the number of points')
    R.rule('arguments', 'every evaluation receives the extra arguments of the user')
    R.rule('distributed', 'with a pool all evaluations go through it')
    R.rule('pool-size', 'an integer pool above one creates a pool of that size')
    cs = []
    for args in (False, True):
        for b in (False, True, 'two', 'typed'):
            for pool in (None, 'obj', 2, 3, 1):
                cs.append(Cfg(blobs=b, args=args, pool=pool))
        cs.append(Cfg(vectorize=True, args=args))
    for args in ('list', 'dict'):
        cs += [Cfg(args=args), Cfg(args=args, vectorize=True), Cfg(args=args, pool='obj', blobs=True)]
    for cfg in cs:
        R.guard('value', lk.lname(cfg), lambda: lk.like_rule(R, cfg))
    for cfg in (Cfg(), Cfg(blobs=True), Cfg(vectorize=True), Cfg(pool=2)):
        for n in (1, 2, 3):
            R.guard('value', lk.lname(cfg), lambda: lk.like_rule(R, cfg, n))


from . import checkpoint as ck


@prop('C08')
def c08(R, thorough):
    R.rule('atomic-save', 'typestate of the files touched by a save: the content is written to a file that is provably another '
           'file in the directory of the checkpoint, then flushed, then forced to disk, then renamed onto the checkpoint; nothing '
           'else creates, opens for writing, moves, removes or overwrites the checkpoint')
    R.rule('crash-point', 'after every operation of the save the checkpoint is whole')
    R.rule('failed-operation', 'the same typestate with one of the file operations failing, through every handler')
    for cfg in (Cfg(), Cfg(pool='obj')):
        R.guard('atomic-save', 'Sampler.save_state', lambda: ck.crash_rule(R, cfg))


@prop('C09')
def c09(R, thorough):
    R.rule('saved-state', 'the stored dictionary holds the current value of every attribute of the sampler')
    R.rule('transient-state', 'the progress bar and the pool are not stored')
    R.rule('save-is-pure', 'saving changes nothing the running sampler refers to')
    R.rule('load', 'after loading every stored attribute has its stored value')
    R.rule('load-keeps', 'attributes that are not stored keep the value of the loading sampler')
    R.rule('save-point', 'the state stored by a run is the state at a boundary between iterations')
    R.rule('counter', 'between iterations the iteration counter is the number of recorded iterations')
    R.rule('resume-state', 'a resumed run enters its iterations with every stored value')
    R.rule('resume-warm-up', 'a run resumed in warm-up continues with the first batch that is not recorded')
    for cfg in (Cfg(), Cfg(pool='obj')):
        R.guard('saved-state', 'Sampler.save_state', lambda: ck.content_rule(R, cfg))
        R.guard('save-is-pure', 'Sampler.__getstate__', lambda: ck.pickle_rule(R, cfg))
        R.guard('load', 'Sampler.load_state', lambda: ck.load_rule(R, cfg))
        R.guard('load', 'Sampler.load_state', lambda: ck.load_rule(R, cfg, True))
    for cfg in r.configs(thorough)[:None if thorough else 2]:
        R.guard('save-point', 'Sampler.run', lambda: ck.points_rule(R, cfg))
    R.rule('file-name', 'the checkpoint of iteration i is output_dir/output_label_i.state, the last one output_dir/output_label_final.state')
    R.rule('save-every', 'a checkpoint is written after every save_every iterations')
    R.guard('file-name', 'Sampler.run', lambda: ck.names_rule(R, Cfg()))
    for cfg in (Cfg(), Cfg(blobs=True)):
        for warm in (False, True):
            R.guard('resume-state', 'Sampler.run', lambda: ck.resume_rule(R, cfg, warm))


from . import training as tr


@prop('C19')
def c19(R, thorough):
    R.rule('pairing', 'position q of each data set holds a sample and the weight of the same sample')
    R.rule('split', 'training and validation set are disjoint and together all samples')
    R.rule('exhaust', 'no loader drops samples')
    R.rule('weighted-loss', 'in every loss a sample enters with its own weight')
    R.rule('loss-sign', 'lowering the loss raises the density of the samples')
    R.rule('fraction', 'the validation set is the requested fraction')
    R.rule('monitored-loss', 'the monitored loss is computed on the validation set if there is one')
    R.rule('best-model', 'early stopping restores the parameters of the epoch with the lowest monitored loss')
    R.rule('training-data', 'the sampler trains flow and geometry on the current particles with the current weights')
    for w in (True, False):
        for v in (True, False):
            for sh in (True, False):
                R.guard('split', 'Flow.fit', lambda: tr.fit_rule(R, w, v, sh))
    R.guard('pairing', 'Flow.fit', lambda: tr.fit_rule(R, True, True, True, True))
    R.rule('training-options', 'the configured training options are the ones used')
    R.rule('geometry', 'the geometry is fitted to the same particles as seen by the trained flow, with the same weights')
    for case in ('untrained', 'trained before', 'no flow'):
        R.guard('training-data', 'Sampler._train', lambda: tr.train_rule(R, case))
    R.rule('schedule', 'the flow is trained the first time, every train_frequency-th iteration and always at inverse temperature one')
    R.rule('before-kernel', 'flow and geometry are brought up to date in every iteration before the kernel uses them')
    R.guard('schedule', 'Sampler._train', lambda: tr.schedule_rule(R))
    for cfg in r.configs(thorough)[:None if thorough else 3]:
        R.guard('training-data', 'Sampler.run', lambda: tr.current_rule(R, cfg))


from . import seeding as sd


@prop('C10')
def c10(R, thorough):
    R.rule('seeded', 'a given seed, zero included, seeds the NumPy and the PyTorch generator in the constructor')
    R.rule('seeded-first', 'nothing is drawn and no flow is initialised before')
    R.rule('reseeding', 'no entry point seeds or replaces the generators afterwards')
    R.rule('global-generator', 'inventory of all references: no other generator is created or drawn from')
    R.rule('no-clock', 'no draw, evaluation, loop exit or result depends on the clock, the process or addresses')
    seen = set()
    for v in sd.seeds():
        for cfg in (Cfg(), Cfg(precondition=False)):
            R.guard('seeded', 'Sampler', lambda: sd.construct_rule(R, v, cfg, seen))
    sd.entry_rule(R, thorough, seen)
    R.guard('global-generator', 'package', lambda: sd.inventory_rule(R, seen))


from . import options as op


@prop('C11')
def c11(R, thorough):
    R.rule('accepted', 'each documented value passes the constructor')
    R.rule('rejected', 'the constructor raises ValueError for near misses and, under the assumption that the value is none of the '
           'documented ones, in every case')
    R.rule('flow-table', 'each flow name creates its own family with its own number of transformations')
    R.rule('kernel', 'each kernel name runs its own proposal')
    R.rule('preconditioning', 'the flow is used by the kernel if and only if preconditioning is on')
    R.rule('metric', 'the recorded size and every decision of the ladder use the chosen metric')
    R.rule('resampling', 'run and posterior use the chosen scheme')
    R.rule('transform', 'the reparameterisation is the chosen one')
    R.rule('fallback', 'particle numbers that are not given are derived as documented')
    for o in op.VALID:
        R.guard('accepted', o, lambda: op.accept_rule(R, o))
    R.guard('flow-table', 'Flow', lambda: op.flow_rule(R))
    for cfg in k.configs():
        R.guard('kernel', k.kname(cfg), lambda: op.must_run(R, 'kernel', k.kname(cfg), lambda: op.kernel_dispatch_rule(R, cfg)))
    for cfg in (Cfg(), Cfg(metric='uss', resample='syst')) + ((Cfg(metric='uss'), Cfg(resample='syst', precondition=False)) if thorough else ()):
        R.guard('metric', r.rname(cfg), lambda: op.must_run(R, 'metric', r.rname(cfg), lambda: r.run(R, cfg)))
        for _, X, V in views(R, 'metric', [cfg]):
            R.guard('metric', V.main.loc, lambda: op.metric_rule(R, X, V, cfg.metric))
            R.guard('metric', V.main.loc, lambda: tp.exit_rule(Only(R, 'termination'), X, V, cfg.metric))
            R.guard('resampling', V.main.loc, lambda: op.resample_rule(R, X, V, cfg))
    for rs in ('mult', 'syst'):
        R.guard('resampling', 'Sampler.posterior', lambda: op.must_run(R, 'resampling', 'Sampler.posterior (resample=%r)' % rs,
                                                                   lambda: op.posterior_resample_rule(R, Cfg(resample=rs))))
    for t in ('probit', 'logit'):
        R.guard('transform', t, lambda: op.transform_rule(R, t))
    R.guard('rejected', 'Sampler', lambda: op.combos_rule(R))
    R.guard('fallback', 'Sampler', lambda: op.numbers_rule(R))
    R.guard('training-options', 'Sampler', lambda: op.train_config_rule(R))


from . import record as rc


@prop('C17')
def c17(R, thorough):
    R.rule('written-once', 'alias analysis: no store into an array that is in the history, or that a recorded slice belongs to')
    R.rule('append-only', 'an iteration leaves every earlier entry as it was; nothing removes, replaces or reorders entries')
    R.rule('every-key', 'an iteration adds exactly one entry to the history of every documented key')
    R.rule('iteration-index', 'the index recorded by an iteration is the number of iterations recorded before')
    R.rule('kept', 'a continued run starts from all recorded iterations')
    R.rule('results-complete', 'the results have one entry per recorded iteration, also after they were asked for before')
    R.rule('results-values', 'the entries are the recorded ones')
    R.rule('history-unchanged', 'evidence, posterior and saving leave the history')
    R.rule('arguments-kept', 'the reparameterisation leaves the arrays it is given')
    mut = {}
    for cfg in k.configs(blobs=(True,)):
        x = R.guard('written-once', k.kname(cfg), lambda: rc.direct_kernel(cfg))
        mut[cfg.sample, cfg.precondition] = x[1] if x else set(rc.KEYS)
        if x:
            R.unit(k.kname(cfg), x[0].I)
    for cfg in r.configs(thorough):
        R.guard('append-only', r.rname(cfg), lambda: rc.run_rule(R, cfg, mut[cfg.sample, cfg.precondition]))
    for cfg in (Cfg(), Cfg(blobs=True, resample='syst')):
        for warm in (False, True):
            R.guard('kept', r.rname(cfg), lambda: rc.continue_rule(R, cfg, warm, mut[cfg.sample, cfg.precondition]))
        R.guard('results-complete', r.rname(cfg), lambda: rc.results_rule(R, cfg))
        R.guard('history-unchanged', r.rname(cfg), lambda: rc.pure_rule(R, cfg))
    R.guard('arguments-kept', 'Reparameterize', lambda: rc.argument_rule(R))


from . import pool as pl
from ..drive import ROOT


@prop('C18')
def c18(R, thorough):
    R.rule('task-tag', 'provenance: the message with tag t asks for the function on task t')
    R.rule('task-sent', 'typestate: a task taken from the list is sent exactly once')
    R.rule('idle-worker', 'typestate: a worker gets a task only while it is idle and is idle again only when its result was received')
    R.rule('worker-tag', 'provenance: the reply has the tag of the task it answers')
    R.rule('worker-reply', 'the worker replies exactly once, to the master, with the function applied to the task')
    R.rule('worker-receive', 'the worker listens to every task of the master')
    R.rule('worker-quit', 'the worker leaves its loop exactly when it is told to')
    R.rule('result-place', 'provenance: the result of the message with tag t is stored at t, in the list that is returned')
    R.rule('all-results', 'linear counters: map returns when as many results were received as there are tasks')
    R.rule('progress', 'the master waits only while a result is outstanding')
    R.rule('worker-ranks', 'the workers are all ranks but the master')
    R.rule('roles', 'every rank but the master waits for tasks and exits')
    R.rule('workers-kept', 'map leaves the set of workers for the next call')
    R.rule('close', 'closing tells every worker to quit, once')
    pl.check(R, ROOT)


from . import steps as st


@prop('C23')
def c23(R, thorough):
    R.rule('recorded-size', 'gated value graph: the sample size recorded for an iteration is the chosen metric at the recorded temperature')
    R.rule('step-size', 'table of the extracted choice: the temperature stays only if the metric is at most the target there, becomes 1 only if the '
                        'metric is at least the target there, and is otherwise one at which the metric is within 1 % of the target')
    R.rule('target', 'the target is n_effective; it stays without dynamic, and follows the expected number of unique active particles with it')
    for cfg, X, V in views(R, 'step-size', ST_CONFIGS + (r.configs(True) if thorough else [])):
        R.guard('step-size', V.main.loc, lambda: st.step_rule(R, X, V, cfg.metric))
        R.guard('target', V.main.loc, lambda: st.target_rule(R, X, V, cfg.dynamic))


ST_CONFIGS = [Cfg(), Cfg(metric='uss'), Cfg(dynamic=False), Cfg(precondition=False, resample='syst', blobs=True), Cfg(metric='uss', dynamic=False)]


from . import display as dp


@prop('C24')
def c24(R, thorough):
    R.rule('same-state', 'non-interference: no attribute of the sampler after a run, MCMC stage or training depends on the display or saving option')
    R.rule('same-result', 'no value an MCMC stage or the training returns depends on it')
    R.rule('same-effects', 'no random draw, likelihood or prior evaluation, training or fit happens on a condition that depends on it')
    R.rule('same-control', 'no loop is left on a condition that depends on it')
    for cfg in k.configs(blobs=(True,)):
        R.guard('same-result', k.kname(cfg), lambda: dp.kernel_rule(R, cfg))
    for cfg in r.configs(thorough):
        R.guard('same-state', r.rname(cfg), lambda: dp.run_rule(R, cfg))
    for w in (False, True):
        for v in (False, True):
            R.guard('same-state', 'Flow.fit', lambda: dp.training_rule(R, w, v))


from . import args as ag


@prop('C25')
def c25(R, thorough):
    R.rule('arguments-kept', 'effect analysis: no array, list, dictionary or object of the caller is written through any alias')
    ag.tools_rule(R)
    for n in (None, 2):
        R.guard('arguments-kept', 'Prior', lambda: ag.prior_rule(R, n))
    for tr in ('probit', 'logit'):
        for diag in (True, False):
            for bc in (False, True):
                R.guard('arguments-kept', 'Reparameterize', lambda: ag.scaler_rule(R, tr, diag, bc))
    for w in (False, True):
        R.guard('arguments-kept', 'Geometry.fit', lambda: ag.geometry_rule(R, w))
        for v in (False, True):
            R.guard('arguments-kept', 'Flow.fit', lambda: ag.flow_rule(R, w, v))
    R.guard('arguments-kept', 'fit_mvstud', lambda: ag.student_rule(R))
    for cfg in (Cfg(), Cfg(args=True), Cfg(bc=True), Cfg(args=True, pool='obj', blobs=True), Cfg(vectorize=True, args=True)):
        R.guard('arguments-kept', 'Sampler', lambda: ag.sampler_rule(R, cfg))
    for s, p in ag.KERNELS:
        R.guard('arguments-kept', 'kernels', lambda: ag.kernel_rule(R, Cfg(sample=s, precondition=p, blobs=True)))


from . import student as sf


@prop('C26')
def c26(R, thorough):
    R.rule('score-equation', 'value graph of the function handed to the root finder against the score of the degrees of freedom')
    R.rule('degrees-of-freedom', 'they are the root, or infinite exactly if the score stays negative up to the end of the bracket')
    R.rule('iteration', 'recurrences of mean and scale matrix against one step of the EM algorithm')
    R.rule('start', 'initial values of the two recurrences')
    R.rule('resolved', 'absorption analysis: which addends survive rounding next to the constants of the score')
    R.rule('returned', 'provenance of the returned triple')
    R.rule('stopping', 'the iteration ends on convergence or after max_iter steps')
    R.rule('finite-tails', 'the geometry takes over the fit and replaces infinite degrees of freedom only')
    R.guard('iteration', 'fit_mvstud', lambda: sf.fit_rule(R))
    for w in (False, True):
        R.guard('finite-tails', 'Geometry.fit', lambda: sf.geometry_rule(R, w))


from . import flowapi as fa


@prop('C27')
def c27(R, thorough):
    R.rule('transforms', 'value graphs of forward and inverse of the flow and of its NumPy adapter against one transform, its inverse and its log-determinant')
    R.rule('density', 'value graphs of log_prob and sample against the density of the flow at the same points')
    R.rule('precision', 'case analysis of the cast over the data types of its input')
    R.rule('regularisation', 'value graph of the penalty over a generic network, and its coefficient in every loss')
    R.guard('transforms', 'Flow', lambda: fa.api_rule(R))
    R.guard('precision', 'torch_double_to_float', lambda: fa.cast_rule(R))
    R.guard('regularisation', 'regularization_loss', lambda: fa.penalty_rule(R))
    for w in (True, False):
        for v in (True, False):
            R.guard('regularisation', 'Flow.fit', lambda: fa.in_loss_rule(R, w, v))


from . import plateau as pt


@prop('C28')
def c28(R, thorough):
    R.rule('plateau', 'recurrences that decide the end of a stage, tabulated over histories of the mean log density, against the plateau criterion')
    for cfg, K in kernels(R, 'plateau', blobs=(False, True) if thorough else (False,)):
        R.guard('plateau', K.site, lambda: pt.plateau_rule(R, K))


from . import ranges as rg


@prop('C29')
def c29(R, thorough):
    R.rule('relative', 'every exponential of log-weights taken by run, posterior and the tools is relative to their maximum or log-sum')
    R.rule('difference', 'every exponential taken by a kernel is unchanged when a constant is added to the log-likelihood')
    for cfg, X, V in views(R, 'relative', r.configs(thorough)):
        R.guard('relative', 'Sampler.run', lambda: rg.run_rule(R, X, cfg))
    for cfg in (Cfg(), Cfg(blobs=True)) if thorough else (Cfg(),):
        H = R.guard('relative', 'history', lambda: h.history(R, cfg))
        if H:
            R.guard('relative', 'Sampler.posterior', lambda: rg.posterior_rule_(R, H))
    rg.tools_rule_(R)
    for cfg, K in kernels(R, 'difference', bc=(False, True) if thorough else (False,)):
        R.guard('difference', K.site, lambda: rg.kernel_rule_(R, K))
