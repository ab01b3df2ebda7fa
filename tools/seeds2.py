OC = "skwdro/solvers/optim_cond.py"
LG = "skwdro/linear_models/_logistic_regression.py"
NV = "skwdro/operations_research/_newsvendor.py"
OT = "skwdro/solvers/oracle_torch.py"
IS = "skwdro/solvers/_dual_interfaces/_impsamp_interface.py"
DL = "skwdro/solvers/_dual_interfaces/dual_loss.py"
NS = "skwdro/base/samplers/torch/newsvendor_sampler.py"
BS = "skwdro/base/samplers/torch/base_samplers.py"
CD = "skwdro/base/cost_decoder.py"
UT = "skwdro/solvers/utils.py"
WP = "skwdro/wrap_problem.py"
ED = "skwdro/solvers/entropic_dual_torch.py"
SP = "skwdro/solvers/specific_solvers.py"
HO = "skwdro/solvers/hybrid_opt.py"
DD = "skwdro/distributions/dirac_distribution.py"
WB = "skwdro/base/losses_torch/weber.py"
WR = "skwdro/base/losses_torch/wrapper.py"
RS = "skwdro/solvers/result.py"
PF = "skwdro/base/losses_torch/portfolio.py"
SEEDS = [
dict(id="B04", property="C02", edits=[
 (OC, "        self.t_grad_0: Optional[pt.Tensor] = None\n", "        self.t_grad_0: list = []\n"),
 (OC, "                if mem is None:\n                    # Compute nabla_theta because we are at nabla theta\n                    # right now.\n                    # Wait for next iteration to verify convergence.\n                    self.t_grad_0 = pt.linalg.norm(\n                        flat_theta_grad(), self.order)\n                    return wrap(False)\n",
  "                if not mem:\n                    # Compute nabla_theta because we are at nabla theta\n                    # right now.\n                    # Wait for next iteration to verify convergence.\n                    self.t_grad_0.append(pt.linalg.norm(\n                        flat_theta_grad(), self.order))\n                    return wrap(False)\n"),
 (OC, "                    new = pt.linalg.norm(flat_theta_grad(), self.order)\n                    return self.check_metric(new, mem, self.tol_theta)",
  "                    new = pt.linalg.norm(flat_theta_grad(), self.order)\n                    return self.check_metric(new, mem[0], self.tol_theta)")],
 needs="two fits with the same stopping rule object (or the default one), monitoring relative gradients",
 breaks="the reference gradient of the first fit is kept in a list shared by the copies of the stopping rule, so later fits compare with it",
 demo='''
import numpy as np
from skwdro.linear_models import LinearRegression
from skwdro.solvers.optim_cond import OptCondTorch
r = np.random.RandomState(0)
X = r.randn(20, 2)
y = X @ np.array([1., -1.]) + .1 * r.randn(20)


def fit(rule, scale):
    e = LinearRegression(rho=.1, learning_rate=.05, n_iter=(0, 60), opt_cond=rule, solver='entropic_torch_pre')
    return e.fit(X, scale * y).coef_


alone = fit(OptCondTorch(2, .3, 0.), 1.)
rule = OptCondTorch(2, .3, 0.)
fit(rule, 100.)
after = fit(rule, 1.)
assert np.allclose(alone, after), (alone, after)
'''),
dict(id="B05", property="C03", edits=[(NV, "        self.theta_ = nn.Parameter(pt.rand(1))\n", "        self.theta_ = nn.Parameter(pt.Tensor(np.random.rand(1)))\n")],
 needs="numpy's global generator in two different states",
 breaks="the initial decision of the newsvendor is drawn from a generator random_state does not seed",
 demo='''
import numpy as np
from skwdro.operations_research import NewsVendor
X = np.random.RandomState(0).exponential(size=(20, 1))
out = []
for s in (1, 2):
    np.random.seed(s)
    e = NewsVendor(rho=.1, solver='entropic_torch_post', random_state=3, learning_rate=1e-3, n_iter=(2, 3))
    out.append(e.fit(X).coef_)
assert np.allclose(*out), out
'''),
dict(id="B06", property="C04", edits=[(LG, "                sigma=self.sampler_reg,\n                epsilon=self.solver_reg,\n", "                sigma=self.solver_reg,\n                epsilon=self.sampler_reg,\n")],
 needs="different values for sampler_reg and solver_reg",
 breaks="the entropic regularisation and the sampler scale of the logistic regression are exchanged",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression
r = np.random.RandomState(0)
X = r.randn(20, 2)
y = np.where(X[:, 0] > 0, 1, 0)
e = LogisticRegression(rho=.1, solver_reg=.5, sampler_reg=.02, n_iter=(2, 2)).fit(X, y)
assert abs(e.wdro_loss_.epsilon.item() - .5) < 1e-6, e.wdro_loss_.epsilon
assert abs(float(e.wdro_loss_.sampler.sigma) - .02) < 1e-6, e.wdro_loss_.sampler.sigma
'''),
dict(id="B07", property="C05", edits=[(LG, "                self.solver in (\"entropic_torch\", \"entropic_torch_post\")\n", "                self.solver.endswith((\"torch\", \"torch_post_\"))\n")],
 needs="the solver name 'entropic_torch_post'",
 breaks="'entropic_torch_post' runs the algorithm that samples once",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression
r = np.random.RandomState(0)
X = r.randn(20, 2)
y = np.where(X[:, 0] > 0, 1, 0)
for name, pre in (('entropic_torch', False), ('entropic_torch_post', False), ('entropic_torch_pre', True)):
    e = LogisticRegression(rho=.1, solver=name, n_iter=(2, 2)).fit(X, y)
    assert e.wdro_loss_.presample is pre, name
'''),
dict(id="B08", property="C10", edits=[
 (OT, "        for opt in self.opts.values():\n            opt.step()\n", "        with pt.no_grad():\n            self.lbd.clamp_(0., None)\n        for opt in self.opts.values():\n            opt.step()\n"),
 (OT, "            scheduler.step()\n        with pt.no_grad():\n            self.lbd.clamp_(0., None)\n", "            scheduler.step()\n")],
 needs="an adaptive optimiser and a large gradient pushing the multiplier down",
 breaks="the multiplier is projected before the step instead of after it",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
for adapt in ('mechanic', 'prodigy'):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, n_samples=4,
                  epsilon=.3, sigma=.2, adapt=adapt)
    l._lam.data.fill_(1e-9)
    for _ in range(400):
        l.optimizer.zero_grad()
        for p in l.primal_loss.parameters():
            p.grad = pt.zeros_like(p)
        l._lam.grad = pt.tensor(1.)
        l.optimizer.step()
        assert l.lam.item() >= 0., (adapt, l.lam)
'''),
dict(id="B09", property="C11", edits=[(IS, "        inv_scale = self._lam.item()\n", "        inv_scale = self._lam.data.clamp_(min=1e-3).item()\n")],
 needs="importance sampling and a multiplier below 1e-3",
 breaks="evaluating the loss raises the multiplier in place to avoid dividing by zero",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
for lam in (1., 1e-5):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, n_samples=4,
                  epsilon=.3, sigma=.2, imp_samp=True)
    l._lam.data.fill_(lam)
    before = {k: v.clone() for k, v in l.state_dict().items()}
    l(x, y)
    for k, v in l.state_dict().items():
        assert pt.equal(v, before[k]), (lam, k, v, before[k])
'''),
dict(id="B10", property="C12", edits=[(NS, "            tril=self.data_s._unbroadcasted_scale_tril\n", "            cov=self.data_s._unbroadcasted_scale_tril\n")],
 needs="a newsvendor sampler whose scale is not one, recentred",
 breaks="the Cholesky factor is handed over as the covariance when the sampler is recentred, so the spread becomes its square root",
 demo='''
import torch as pt
from skwdro.base.samplers.torch import NewsVendorNormalSampler
x = pt.tensor([[1.], [2.]])
s = NewsVendorNormalSampler(x, sigma=.1, seed=1)
v = s.data_s.variance
s.reset_mean(x + 5., None)
assert pt.allclose(s.data_s.mean, x + 5.)
assert pt.allclose(s.data_s.variance, v), (v, s.data_s.variance)
'''),
dict(id="B11", property="C13", edits=[("skwdro/base/costs_torch/normlabelcost.py", """                return dst.Laplace(
                    loc=xi_labels,
                    scale=epsilon.to(xi_labels) / self.kappa
""", """                return dst.Laplace(
                    loc=xi_labels,
                    scale=epsilon.to(xi_labels)
""")],
 needs="a labelled cost of power one and norm one with a label weight other than one",
 breaks="labels are perturbed with the spread of the data instead of the spread divided by the label weight",
 demo='''
import torch as pt
from skwdro.base.costs_torch import NormLabelCost
y = pt.randn(5, 1)
for p in (1., 2.):
    s = NormLabelCost(p, 1., 4.)._sampler_labels(y, pt.tensor(.4))
    assert pt.allclose(s.scale, pt.tensor(.1)), (p, s.scale)
'''),
dict(id="B12", property="C14", edits=[(BS, "            return lp.sum(dim=-1, keepdim=True)\n", "            return lp.mean(dim=-1, keepdim=True)\n")],
 needs="data with more than one coordinate and a factorised noise family",
 breaks="the log-density averages the coordinates instead of adding them",
 demo='''
import torch as pt
from skwdro.base.samplers.torch import NoLabelsCostSampler
from skwdro.base.costs_torch import NormCost
for d in (1, 3):
    x = pt.randn(5, d)
    s = NoLabelsCostSampler(NormCost(2., 2.), x, pt.tensor(.4), seed=0)
    z, _ = s.sample(4)
    e = pt.distributions.Normal(x, .4).log_prob(z).sum(-1, keepdim=True)
    assert pt.allclose(s.log_prob(z, None), e, atol=1e-4), d
'''),
dict(id="B13", property="C15", edits=[(CD, "            kappa = float(kappa_)\n", "            kappa = max(float(kappa_), 1.)\n")],
 needs="a code with a label weight below one",
 breaks="label weights below one are raised to one by one of the decoders",
 demo='''
from skwdro.base.cost_decoder import parse_code_torch, cost_from_parse_torch, cost_from_str
for k in ('3', '0.25'):
    code = 't-NLC-2-2-' + k
    a, b = cost_from_str(code), cost_from_parse_torch(parse_code_torch(code))
    assert a.kappa == b.kappa == float(k), (code, a.kappa, b.kappa)
'''),
dict(id="B14", property="C17", edits=[(CD, "        return self.power == 2 and self.type == 2\n", "        return self.power == 2 and self.type == 2 and self.kappa >= DEFAULT_KAPPA\n")],
 needs="importance sampling asked with a squared Euclidean cost and an explicit label weight",
 breaks="importance sampling is silently switched off when the code gives a label weight",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(6, 3), pt.randn(6, 1)
for code, on in (('t-NLC-2-2', True), ('t-NLC-2-2-3', True), ('t-NLC-1-2-3', False)):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, n_samples=4,
                  epsilon=.3, sigma=.2, imp_samp=True, cost_spec=code)
    assert bool(l.imp_samp) is on, (code, l.imp_samp)
'''),
dict(id="B15", property="C18", edits=[(IS, """        _check = _check or (
            (disp_labels is not None) and check_tensor_validity(disp_labels)
        )
""", """        _check = _check or (
            (disp_labels is not None) and check_tensor_validity(disp)
        )
""")],
 needs="importance sampling with a loss whose gradient with respect to the labels vanishes",
 breaks="a label shift that is not a number no longer prevents the samples from being moved",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)


class L(pt.nn.Module):
    reduction = 'none'

    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, z, t):
        return z ** 2 + self.w * t


for w in (1., 0.):
    l = robustify(L(w), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, n_samples=4, epsilon=.3, sigma=.2, imp_samp=True)
    l._lam.data.fill_(1.)
    z, t = l.generate_zetas(4)
    out = l.displace_samples(x, y, z, t)
    assert all(o.isfinite().all() for o in out), w
'''),
dict(id="B16", property="C19", edits=[(WP, "        epsilon_factor = epsilon_sigma_factor * sigma_factor**p\n", "        epsilon_factor = epsilon_sigma_factor * sigma_factor**2\n")],
 needs="a ground cost of power one and no epsilon given",
 breaks="the default regularisation always squares the sampler factor",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(6, 3), pt.randn(6, 1)
for code, k in (('t-NLC-2-2', 2), ('t-NLC-1-2', 1)):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.4), x, y, n_samples=4,
                  cost_spec=code, imp_samp=False)
    e = max(.01 * .5 ** k * .4 ** (k - 1), 1e-7)
    assert abs(l.epsilon.item() - e) < 1e-7, (code, l.epsilon.item(), e)
'''),
dict(id="B17", property="C20", edits=[(OC, "                    delta = pt.linalg.norm(new - mem, self.order)\n", "                    delta = pt.linalg.norm(new - mem0, self.order)\n")],
 needs="the 'param' metric on the model parameters, more than two evaluations",
 breaks="the move is measured from the first iterate instead of the previous one, so the rule does not trigger on a converged run",
 demo='''
import torch as pt
from skwdro.torch import robustify
from skwdro.solvers.optim_cond import OptCondTorch
pt.manual_seed(0)
x, y = pt.randn(6, 3), pt.randn(6, 1)
l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.4), x, y, n_samples=4, n_iter=(0, 1000))
for mode in ('rel', 'abs'):
    c = OptCondTorch(2, 1e-2, 1e-2, monitoring='theta', metric='param', mode=mode)
    ans = []
    for k, v in enumerate((0., 1., 2., 2.0001)):
        with pt.no_grad():
            for p in l.primal_loss.parameters():
                p.fill_(v)
        ans.append(bool(c(l, k)))
    assert ans == [False, False, False, True], (mode, ans)
'''),
dict(id="B18", property="C21", edits=[(ED, "    for _ in range(pretrain_iters):\n        optimizer.zero_grad()\n\n        # Resamples", "    optimizer.zero_grad()\n    for _ in range(pretrain_iters):\n        # Resamples")],
 needs="a resampling solver with at least two warm-up steps",
 breaks="gradients are cleared once before the warm-up and accumulate over its steps",
 demo='''
import numpy as np
import torch as pt
from skwdro.torch import robustify
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.base.problems import EmpiricalDistributionWithLabels
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.4), x, y, n_samples=4,
              n_iter=(3, 1), learning_rate=.1, adapt=None)
seen = []


def hook(opt, args, kwargs):
    w, b = l.primal_loss.transform.weight, l.primal_loss.transform.bias
    got = w.grad.clone()
    want, = pt.autograd.grad((x @ w.T + b - y).pow(2).mean(), w)
    seen.append((got, want))


l.optimizer.register_step_pre_hook(hook)
solve_dual_wdro(l, EmpiricalDistributionWithLabels(m=10, samples_x=x.numpy(), samples_y=y.numpy()), OptCondTorch(2))
for got, want in seen[:3]:
    assert pt.allclose(got, want, atol=1e-5), (got, want)
'''),
dict(id="B19", property="C22", edits=[(ED, "    robust_loss = losses[-1]\n", "    robust_loss = min(losses)\n")],
 needs="a fit with resampling whose losses are not decreasing (the warm-up losses are smaller)",
 breaks="the robust loss attribute is the smallest recorded value, warm-up included, instead of the final one",
 demo='''
import numpy as np
import torch as pt
from skwdro.linear_models import LinearRegression
import skwdro.solvers.entropic_dual_torch as ed
r = np.random.RandomState(0)
X = r.randn(20, 2)
y = X @ np.array([1., -1.]) + .1 * r.randn(20)
kept = []
orig = ed.optim_postsample


def spy(*a, **k):
    out = orig(*a, **k)
    kept.append(list(out))
    return out


ed.optim_postsample = spy
e = LinearRegression(rho=1., learning_rate=.05, n_iter=(60, 5)).fit(X, y)
assert np.isclose(e.robust_loss_, kept[0][-1]), (e.robust_loss_, kept[0][-1], min(kept[0]))
'''),
dict(id="B20", property="C24", edits=[
 (NV, "        self.is_fitted_ = True\n\n        # `fit` should always return", "        # `fit` should always return"),
 (NV, "        m, d = np.shape(X)\n", "        m, d = np.shape(X)\n        self.is_fitted_ = True\n")],
 needs="a newsvendor fit that raises",
 breaks="the estimator is marked as fitted before solving, so a failed fit leaves it marked",
 demo='''
import numpy as np
from skwdro.operations_research import NewsVendor
X = np.random.RandomState(0).exponential(size=(20, 1))
assert NewsVendor(rho=.1, solver='dedicated').fit(X).is_fitted_
e = NewsVendor(rho=.1, solver='nonsense')
try:
    e.fit(X)
except NotImplementedError:
    pass
else:
    raise AssertionError('accepted')
assert not hasattr(e, 'is_fitted_')
'''),
dict(id="B21", property="C25", edits=[(SP, "    assert samples is not None\n    z = np.sort(samples, axis=0)\n    n = z.shape[0]\n", "    assert samples is not None\n    samples.sort(axis=0)\n    z = samples\n    n = z.shape[0]\n")],
 needs="calling the convex newsvendor solver on unsorted samples",
 breaks="the samples of the caller are sorted in place",
 demo='''
import numpy as np
from skwdro.solvers.specific_solvers import WDRONewsvendorSpecificSolver
s = np.array([[3.], [1.], [2.], [5.]])
t = s.copy()
WDRONewsvendorSpecificSolver(k=5., u=7., rho=.1, samples=s)
assert np.array_equal(s, t), s
'''),
dict(id="B22", property="C26", edits=[(HO, "    p.grad.clip_(-BOUND, BOUND)\n", "    p.grad.clip_(None, BOUND)\n")],
 needs="a parameter under the bounded-gradient rule with a very negative gradient",
 breaks="gradients are only bounded from above",
 demo='''
import torch as pt
from skwdro.solvers.hybrid_opt import HybridSGD
for g in (1e6, -1e6):
    p = pt.nn.Parameter(pt.zeros(2))
    o = HybridSGD([{'params': [p], 'bound': True}], lr=1.)
    p.grad = pt.full((2,), g)
    o.step()
    assert p.abs().max() <= 100., p
'''),
dict(id="B23", property="C27", edits=[(DD, "(value - self.loc).abs().sum()", "(value - self.loc).sum().abs()")],
 needs="points whose deviations from the location cancel",
 breaks="the log-density sums signed deviations, so it is zero away from the location when they cancel",
 demo='''
import torch as pt
from skwdro.distributions import Dirac
d = Dirac(pt.tensor([1., 2.]))
assert d.log_prob(pt.tensor([1., 2.])) == 0.
assert d.log_prob(pt.tensor([2., 2.])) == -pt.inf
assert d.log_prob(pt.tensor([2., 1.])) == -pt.inf
'''),
dict(id="B24", property="C29", edits=[(SP, """        constraints = [cp.norm(beta[:d]) <= beta[d]]
        for i in range(n):
            constraints.append(cp.logistic(
                y[i] * X[i, :] @ beta[:d]) - kappa""", """        constraints = [cp.norm(beta[:d], 1) <= beta[d]]
        for i in range(n):
            constraints.append(cp.logistic(
                y[i] * X[i, :] @ beta[:d]) - kappa""")],
 needs="the dedicated logistic regression without intercept, several features",
 breaks="the multiplier bounds the 1-norm of the coefficients instead of their Euclidean norm",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression
r = np.random.RandomState(0)
X = r.randn(30, 3)
y = np.where(X @ np.array([1., 1., -1.]) + r.randn(30) > 0, 1, -1)
for fi in (True, False):
    e = LogisticRegression(rho=.1, fit_intercept=fi, solver='dedicated').fit(X, y)
    assert abs(np.linalg.norm(e.coef_) - e.dual_var_) < 1e-2, (fi, e.coef_, e.dual_var_)
'''),
dict(id="B26", property="C34", edits=[(OT, "        for opt in self.opts.values():\n            opt.zero_grad()\n", "        self.opts['params'].zero_grad()\n")],
 needs="an adaptive optimiser and several steps",
 breaks="clearing gradients forgets the dual multiplier",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, n_samples=4,
              epsilon=.3, sigma=.2, adapt='prodigy')
l(x, y).backward()
l.optimizer.zero_grad()
for p in (*l.primal_loss.parameters(), l._lam):
    assert p.grad is None or not p.grad.any(), p.grad
'''),
dict(id="B27", property="C35", edits=[
 (ED, "    # Pretrain ERM\n    loss.erm_mode = True\n    for _ in range(pretrain_iters):\n        optimizer.zero_grad()\n", "    # Init lambda\n    loss.get_initial_guess_at_dual(xi, xi_labels)\n\n    # Pretrain ERM\n    loss.erm_mode = True\n    for _ in range(pretrain_iters):\n        optimizer.zero_grad()\n"),
 (ED, "    # Init lambda\n    loss.get_initial_guess_at_dual(xi, xi_labels)\n\n    if isinstance", "    if isinstance")],
 needs="a resampling fit with warm-up steps",
 breaks="the multiplier is initialised at the untrained model, before the warm-up",
 demo='''
import torch as pt
from skwdro.torch import robustify
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.base.problems import EmpiricalDistributionWithLabels
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.4), x, y, n_samples=4,
              n_iter=(3, 1), learning_rate=.1, adapt=None)
events = []
orig = l.get_initial_guess_at_dual
l.get_initial_guess_at_dual = lambda *a: (events.append('lam'), orig(*a))[1]
l.optimizer.register_step_post_hook(lambda *a: events.append('step'))
solve_dual_wdro(l, EmpiricalDistributionWithLabels(m=10, samples_x=x.numpy(), samples_y=y.numpy()), OptCondTorch(2))
assert events == ['step'] * 3 + ['lam', 'step'], events
'''),
dict(id="B28", property="C06", edits=[(OT, """                if self.rho < 0.:
                    raise ValueError(' '.join([
                        "Rho < 0 detected: ->",
                        str(self.rho.item()),
                        ", please provide a positive rho value"
                    ]))
                elif self.rho == 0.:
                    # Just to have a zero grad in lambda
                    first_term = self.rho * self.lam
                    batched_pl: pt.Tensor = self.primal_loss(
                        xi.unsqueeze(0),  # (1, m, d)
                        # (1, m, d') or None
                        xi_labels.unsqueeze(0) if xi_labels is not None else None
                    )  # (1, m, 1)
                    primal_loss""", """                if self.rho <= 0.:
                    # Just to have a zero grad in lambda
                    first_term = self.rho * self.lam
                    batched_pl: pt.Tensor = self.primal_loss(
                        xi.unsqueeze(0),  # (1, m, d)
                        # (1, m, d') or None
                        xi_labels.unsqueeze(0) if xi_labels is not None else None
                    )  # (1, m, 1)
                    primal_loss""")],
 needs="a presampled loss evaluated on its stored samples after its radius became negative",
 breaks="a negative radius silently gives the empirical risk when the stored samples are reused",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
for mode in (True, False):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.5), x, y, post_sample=mode,
                  n_samples=4, epsilon=.3, sigma=.2)
    if mode:
        l(x, y)
    else:
        l(x, y, *l.generate_zetas(4))
    l.rho.data.fill_(-1.)
    try:
        l(x, y)
    except ValueError:
        continue
    raise AssertionError(('negative radius accepted', mode))
'''),
dict(id="B29", property="C07", edits=[(DL, "        if self.rho == 0. or self.erm_mode:\n", "        if self.erm_mode:\n"), (DL, "        elif self.rho > 0.:\n", "        elif self.rho >= 0.:\n")],
 needs="a presampled loss with a zero radius outside the warm-up",
 breaks="with a zero radius the presampled loss is averaged over the noisy samples",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
for mode in (True, False):
    l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(0.), x, y, post_sample=mode,
                  n_samples=4, epsilon=.3, sigma=.2)
    t = l.primal_loss.transform
    v = l(x, y) if mode else l(x, y, *l.generate_zetas(4))
    assert pt.allclose(v, (t(x) - y).pow(2).mean(), atol=1e-5), mode
'''),
dict(id="B25", property="C31", edits=[(WR, """            return self.regularize(self.loss(
                self.transform(xi),
                reduction='none'
            ))

    def _reduce""", """            return self.loss(
                self.transform(xi),
                reduction='none'
            )

    def _reduce""")],
 needs="a functional loss without labels and a positive l2 weight",
 breaks="unlabelled functional losses are not regularised",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x = pt.randn(6, 3)


def f(z, reduction='mean'):
    assert reduction == 'none'
    return z ** 2


l = robustify(f, pt.nn.Linear(3, 1), pt.tensor(.5), x, None, n_samples=4, epsilon=.3, sigma=.2, l2reg=2.)
t = l.primal_loss.transform
z = pt.randn(4, 6, 3)
reg = sum((p ** 2).sum() for p in t.parameters())
assert pt.allclose(l.primal_loss.value(z, None), t(z) ** 2 + reg, atol=1e-4)
'''),
dict(id="B30", property="C01", edits=[("skwdro/operations_research/_portfolio.py", "        self.alpha = alpha\n", "        self.alpha = float(alpha)\n")],
 needs="a risk level given as an integer",
 breaks="the constructor converts a hyperparameter, so cloning the estimator fails",
 demo='''
from sklearn.base import clone
from skwdro.operations_research import Portfolio
for alpha in (.95, 1):
    e = clone(Portfolio(alpha=alpha))
    assert type(e.get_params()['alpha']) is type(alpha)
'''),
dict(id="B31", property="C23", edits=[(LG, "            _p = proba >= np.max(proba, axis=1, keepdims=True)\n", "            _p = proba >= .5\n")],
 needs="more than two classes and a point where no class has probability one half",
 breaks="the predicted class is the one above one half, not the most probable one",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression
r = np.random.RandomState(0)
X = r.randn(40, 2)
y = r.randint(0, 4, 40)
e = LogisticRegression(rho=.1, n_iter=(3, 3)).fit(X, y)
p = e.predict_proba(X)
assert np.array_equal(e.predict(X), e.classes_[p.argmax(1)])
'''),
dict(id="B32", property="C28", edits=[(NV, "            losses = self.u * np.minimum(self.coef_, X)\n", "            losses = self.u * np.minimum(self.coef_, X.mean())\n")],
 needs="the dedicated newsvendor with demands on both sides of the decision",
 breaks="the loss is computed at the mean demand instead of averaged over the demands",
 demo='''
import numpy as np
from skwdro.operations_research import NewsVendor
X = np.random.RandomState(0).exponential(size=(30, 1)) + 1.
e = NewsVendor(rho=1e-3, k=5., u=9., solver='dedicated').fit(X)
v = np.mean(5. * e.coef_ - 9. * np.minimum(e.coef_, X))
assert np.isclose(e.eval(X), v) and np.isclose(e.score(X), -v), (e.eval(X), v)
'''),
dict(id="B33", property="C30", edits=[(PF, "        cvar = self.tau + fl.relu(-returns - self.tau) / self.alpha\n", "        cvar = self.tau + fl.relu(self.tau - returns) / self.alpha\n")],
 needs="a portfolio loss whose threshold tau is not zero",
 breaks="the excess over the threshold has the wrong sign of tau",
 demo='''
import torch as pt
from skwdro.base.losses_torch.portfolio import SimplePortfolio
pt.manual_seed(0)
l = SimplePortfolio(3, 2., .5)
x = pt.randn(4, 5, 3)
for t in (0., .7):
    l.tau.data.fill_(t)
    r = (x * l.assets.weight).sum(-1, keepdim=True)
    e = -r + 2. * (t + (-r - t).clamp(min=0.) / .5)
    assert pt.allclose(l(x), e, atol=1e-5), t
'''),
]
