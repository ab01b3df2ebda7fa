MI = "skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py"
DL = "skwdro/solvers/_dual_interfaces/dual_loss.py"
OT = "skwdro/solvers/oracle_torch.py"
HO = "skwdro/solvers/hybrid_opt.py"
WE = "skwdro/operations_research/_weber.py"
NV = "skwdro/operations_research/_newsvendor.py"
ED = "skwdro/solvers/entropic_dual_torch.py"
LG = "skwdro/linear_models/_logistic_regression.py"
SP = "skwdro/solvers/specific_solvers.py"
CD = "skwdro/base/cost_decoder.py"
OC = "skwdro/solvers/optim_cond.py"
NC = "skwdro/base/costs_torch/normcost.py"
NL = "skwdro/base/costs_torch/normlabelcost.py"
BS = "skwdro/base/samplers/torch/base_samplers.py"
IM = "skwdro/solvers/_dual_interfaces/_impsamp_interface.py"
SEEDS = [
dict(id="B35", property="C34", edits=[(OT, "                lr=5e-2 if learning_rate is None else learning_rate,\n", "                lr=learning_rate or 5e-2,\n")],
 needs="a learning rate of zero",
 breaks="a learning rate of zero is replaced by the default one, so parameters that should stay where they are move",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(5, 2), pt.randn(5, 1)
m = nn.Linear(2, 1)
D = robustify(nn.MSELoss(reduction='none'), m, pt.tensor(.1), x, y, adapt=None, learning_rate=0.)
w = m.weight.detach().clone()
D(x, y).backward()
D.optimizer.step()
assert D.optimizer.param_groups[0]['lr'] == 0. and pt.equal(m.weight, w), (w, m.weight)
'''),
dict(id="B36", property="C26", edits=[(HO, "    p /= torch.sum(p)\n", "    p /= torch.sum(p, dim=-1, keepdim=True)\n")],
 needs="a simplex constrained parameter with several axes",
 breaks="matrices are normalised row by row instead of summing to one",
 demo='''
import torch as pt
from skwdro.solvers.hybrid_opt import HybridSGD
for shape in ((4,), (2, 3)):
    w = pt.nn.Parameter(pt.ones(shape) / pt.ones(shape).numel())
    o = HybridSGD([{'params': [w], 'mwu_simplex': True}], lr=.1)
    (w * pt.arange(w.numel()).reshape(shape)).sum().backward()
    o.step()
    assert abs(w.sum().item() - 1.) < 1e-5, w
'''),
dict(id="B37", property="C01", edits=[(WE, "                self._wdro_loss.n_iter = 300\n", "                self.n_iter = 300\n                self._wdro_loss.n_iter = self.n_iter\n")],
 needs="a Weber estimator built without n_iter",
 breaks="fit writes the number of iterations it chose over the hyperparameter",
 demo='''
import numpy as np
from skwdro.operations_research import Weber
r = np.random.RandomState(0)
e = Weber(rho=.1, learning_rate=1e-2)
before = e.get_params()['n_iter']
e.fit(r.randn(6, 2), r.rand(6))
assert e.get_params()['n_iter'] == before, e.get_params()['n_iter']
'''),
dict(id="B38", property="C08", edits=[(DL, "                    # (1, m, d)\n                    xi.unsqueeze(0),\n", "                    # (1, m, d)\n                    xi_star,\n")],
 needs="importance sampling with a nonzero gradient of the loss",
 breaks="the transport cost is counted from the displaced point instead of the data point",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify


class Loss(nn.Module):
    reduction = 'none'

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(pt.tensor([1., -2.]))

    def forward(self, x):
        return (x * self.w).sum(-1, keepdim=True)


pt.manual_seed(0)
x = pt.randn(4, 2)
D = robustify(Loss(), None, pt.tensor(.5), x, None, epsilon=.5, sigma=1., n_samples=20000)
D._lam.data.fill_(2.)
got = D(x).item()
# exact value of the entropic dual for a linear loss and a squared distance
lam, eps, w = 2., .5, pt.tensor([1., -2.])
a = 1. / (1. + 2. * lam / eps)
want = (lam * .25 + (x @ w).mean() + eps * (pt.log(pt.tensor(a)) + a * (w @ w) / eps**2 / 2.)).item()
assert abs(got - want) < .05, (got, want)
'''),
dict(id="B39", property="C21", edits=[(ED, "        optimizer.step()\n        losses.append(objective.item())\n        if math.isnan(losses[-1]):\n", "        optimizer.step()\n        losses.append(objective.item())\n        if math.isnan(losses[0]):\n")],
 needs="a loss that becomes NaN after some iterations",
 breaks="only the first value is tested for NaN, so a diverged optimisation goes on to the last iteration",
 demo='''
import warnings
import numpy as np
import torch as pt
from torch import nn
from skwdro.torch import robustify
from skwdro.base.problems import EmpiricalDistributionWithoutLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
warnings.simplefilter('ignore')
calls = []


class Loss(nn.Module):
    reduction = 'none'

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(pt.ones(1))

    def forward(self, x):
        calls.append(1)
        return (x - self.w)**2 * (1. if len(calls) < 12 else float('nan'))


X = np.random.RandomState(0).randn(6, 1)
D = robustify(Loss(), None, pt.tensor(.1), pt.Tensor(X), None, cost_spec='t-NC-1-2', n_iter=(0, 60), adapt=None, learning_rate=1e-3)
solve_dual_wdro(D, EmpiricalDistributionWithoutLabels(m=6, samples=X), OptCondTorch(2, 0., 0.))
assert len(calls) < 20, len(calls)
'''),
dict(id="B41", property="C33", edits=[(OT, "        elif reset_sampler:\n", "        elif reset_sampler and self.training:\n")],
 needs="a robust loss in evaluation mode on another batch than the one it was built on",
 breaks="in evaluation mode samples are drawn around the batch of the last training evaluation",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(5, 2), pt.randn(5, 1)
D = robustify(nn.MSELoss(reduction='none'), nn.Linear(2, 1), pt.tensor(.1), x, y, cost_spec='t-NLC-1-2')
D.eval()
a = D(x + 3., y)
D.train()
b = D(x + 3., y)
assert pt.allclose(a, b), (a, b)
'''),
dict(id="B42", property="C02", edits=[(LG, "            self.le_ = LabelEncoder()\n            y = self.le_.fit_transform(y)\n", "            if not isinstance(getattr(self, 'le_', None), LabelEncoder):\n                self.le_ = LabelEncoder().fit(y)\n            y = self.le_.transform(y)\n")],
 needs="a second fit of one classifier with other labels",
 breaks="the label encoder of the first fit is kept, so labels of the second fit are decoded with it",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression
r = np.random.RandomState(0)
X = r.randn(20, 2)
y = (X[:, 0] > 0).astype(int)
e = LogisticRegression(rho=.01, solver='dedicated')
e.fit(X, y)
labels = np.where(y == 1, 7, 3)
e.fit(X, labels)
assert set(e.predict(X)) <= {3, 7}, set(e.predict(X))
'''),
dict(id="B43", property="C03", edits=[(BS, "        if seed is not None:\n", "        if seed:\n")],
 needs="the seed 0 and an estimator whose only seeding is that of its sampler",
 breaks="the seed zero does not seed the sampler",
 demo='''
import numpy as np
import torch as pt
from skwdro.operations_research import Weber
r = np.random.RandomState(0)
X, y = r.randn(8, 2), r.rand(8)
out = []
for s in (1, 2):
    pt.manual_seed(s)
    e = Weber(rho=.1, random_state=0, learning_rate=1e-2, n_iter=(2, 5), cost='t-NLC-1-2', solver_reg=.1, sampler_reg=.5)
    out.append(e.fit(X, y).coef_)
assert np.allclose(*out), out
'''),
dict(id="B44", property="C04", edits=[(NV, "                n_samples=self.n_zeta_samples,\n", "")],
 needs="a newsvendor with another number of samples than ten",
 breaks="n_zeta_samples of the newsvendor is dropped",
 demo='''
import numpy as np
from skwdro.operations_research import NewsVendor
X = np.random.RandomState(0).exponential(size=(10, 1))
e = NewsVendor(rho=.1, solver='entropic_torch_post', n_zeta_samples=3, learning_rate=1e-3, n_iter=(1, 2)).fit(X)
assert e._wdro_loss.n_samples == 3, e._wdro_loss.n_samples
'''),
dict(id="B47", property="C35", edits=[(MI, "            return range(self.n_iter[1])\n", "            return range(self.n_iter[0], self.n_iter[1])\n")],
 needs="n_iter given as a pair with a warm-up",
 breaks="the warm-up is deducted from the robust steps asked for",
 demo='''
import numpy as np
import torch as pt
from torch import nn
from skwdro.torch import robustify
from skwdro.base.problems import EmpiricalDistributionWithLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
r = np.random.RandomState(0)
X, y = r.randn(6, 2), r.randn(6, 1)
D = robustify(nn.MSELoss(reduction='none'), nn.Linear(2, 1), pt.tensor(.1), pt.Tensor(X), pt.Tensor(y), n_iter=(4, 7), adapt=None, learning_rate=1e-3)
steps = []
D.optimizer.register_step_post_hook(lambda *_: steps.append(D.erm_mode))
solve_dual_wdro(D, EmpiricalDistributionWithLabels(m=6, samples_x=X, samples_y=y), OptCondTorch(2, 0., 0.))
assert steps.count(True) == 4 and steps.count(False) == 7, steps
'''),
dict(id="B48", property="C13", edits=[(NL, '''                Warning("For sup norm, we use a gaussian sampler by default.")
                return dst.Normal(
                    loc=xi_labels,
                    scale=epsilon.to(xi_labels) / self.kappa
                )
''', '''                Warning("For sup norm, we use a gaussian sampler by default.")
                return dst.Normal(
                    loc=xi_labels,
                    scale=epsilon.to(xi_labels)
                )
''')],
 needs="the sup-norm cost with a finite label weight",
 breaks="labels are perturbed without taking the label weight into account",
 demo='''
import torch as pt
from skwdro.base.costs_torch import NormLabelCost
y = pt.zeros(3, 1)
got = NormLabelCost(p=float('inf'), power=1., kappa=10.)._sampler_labels(y, pt.tensor(.5)).stddev
assert pt.allclose(got, pt.full((3, 1), .05)), got
'''),
dict(id="B49", property="C30", edits=[(NV, "        return (gains - losses).mean(dim=-1, keepdim=True)\n", "        return (gains - losses).sum(dim=-1, keepdim=True)\n")],
 needs="demands of several products",
 breaks="the newsvendor loss of a point is the sum over its products instead of their mean",
 demo='''
import torch as pt
from skwdro.operations_research._newsvendor import CustomNewsvendorLoss
pt.manual_seed(0)
L = CustomNewsvendorLoss(5., 7.)
x = pt.rand(4, 3)
want = (5. * L.theta_ - 7. * pt.minimum(L.theta_, x)).mean(-1, keepdim=True)
assert pt.allclose(L(x), want), (L(x), want)
'''),
dict(id="B50", property="C18", edits=[(IM, "        grad_xi, grad_xi_l = self.get_displacement_direction(xi, xi_labels)\n", "        if getattr(self, '_directions', None) is None or \\\n                self._directions[0].size(1) != xi.size(0):\n            self._directions = self.get_displacement_direction(xi, xi_labels)\n        grad_xi, grad_xi_l = self._directions\n")],
 needs="two evaluations of one robust loss on batches of the same size",
 breaks="the gradients that displace the samples are those of an earlier batch and model",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(5, 2), pt.randn(5, 1)
m = nn.Linear(2, 1)


def build():
    return robustify(nn.MSELoss(reduction='none'), m, pt.tensor(.1), x, y)


alone = build()(x, y)
D = build()
D(2. * x + 1., -y)
assert pt.allclose(D(x, y), alone), (D(x, y), alone)
'''),

dict(id="B51", property="C17", edits=[(ED, "                losses.append(closure(False))\n                loss.imp_samp = _is  # Put it back on if it used to be.\n", "                losses.append(closure(False))\n")],
 needs="samples drawn before the loop, the squared Euclidean cost and a stopping rule on parameters",
 breaks="importance sampling is lost after the first step",
 demo='''
import numpy as np
from skwdro.operations_research import Weber
from skwdro.solvers.optim_cond import OptCondTorch

rng = np.random.default_rng(0)
X, y = rng.normal(size=(8, 2)), np.ones(8)
w = Weber(rho=.5, solver="entropic_torch_pre", cost="t-NLC-2-2", n_iter=(1, 2), learning_rate=1e-3,
          opt_cond=OptCondTorch(2, 0., 0., metric="param"))
w.fit(X, y)
assert w._wdro_loss.imp_samp
'''),
dict(id="B52", property="C35", edits=[(ED, "    # Train WDRO\n    loss.erm_mode = False\n    for iteration in loss.iterations:\n        optimizer.zero_grad()\n", "    # Train WDRO\n    if losses:\n        loss.erm_mode = False\n    for iteration in loss.iterations:\n        optimizer.zero_grad()\n")],
 needs="no warm-up step asked",
 breaks="without warm-up steps, all steps minimise the empirical risk",
 demo='''
import numpy as np
from skwdro.linear_models import LogisticRegression

rng = np.random.default_rng(0)
X = rng.normal(size=(20, 2))
y = (X[:, 0] > 0).astype(int)
m = LogisticRegression(rho=.5, n_iter=(0, 3), learning_rate=1e-2)
m.fit(X, y)
assert not m.wdro_loss_.erm_mode
'''),
dict(id="B53", property="C33", edits=[(OT, "            zeta_, zeta_labels_ = self.generate_zetas(self.n_samples)\n", "            zeta_, zeta_labels_ = self.generate_zetas(self.n_samples if self.training else 1)\n")],
 needs="an evaluation after eval()",
 breaks="in evaluation mode the integral is estimated with a single sample",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify

pt.manual_seed(0)
x, y = pt.randn(5, 2), pt.randn(5, 1)
D = robustify(nn.MSELoss(reduction='none'), nn.Linear(2, 1), pt.tensor(.5), x, y, n_samples=50, imp_samp=False)
a = D(x, y).item()
D.eval()
b = D(x, y).item()
assert abs(a - b) < 1e-4, (a, b)
'''),

dict(id="B54", property="C21", edits=[(ED, "        losses.append(objective.item())\n        if math.isnan(losses[-1]):\n", "        losses.append(objective.item())\n        if math.isnan(losses[0]):\n")],
 needs="a loss becoming NaN after the first robust step, samples drawn at each step",
 breaks="only a NaN at the first step stops the training, later ones do not",
 demo='''
import warnings
import numpy as np
import torch as pt
from skwdro.linear_models import LinearRegression
from skwdro.solvers.optim_cond import OptCondTorch

warnings.simplefilter("ignore")
seen = []


class Watch(OptCondTorch):
    def __call__(self, dual_loss, it_number):
        seen.append(it_number)
        if len(seen) == 3:
            with pt.no_grad():
                for p in dual_loss.primal_loss.parameters():
                    p.fill_(float("nan"))
        return False


rng = np.random.default_rng(0)
X = rng.normal(size=(10, 2))
y = X.sum(1)
LinearRegression(rho=.1, n_iter=(2, 60), solver="entropic_torch_post",
                 opt_cond=Watch(2)).fit(X, y)
assert len(seen) == 3, len(seen)
'''),
dict(id="B56", property="C33", edits=[(OT, "            self.zeta = zeta\n            self.zeta_labels = zeta_labels\n", "            if self.training or self.zeta is None:\n                self.zeta = zeta\n                self.zeta_labels = zeta_labels\n")],
 needs="a loss sampled beforehand given new samples in evaluation mode, then evaluated without samples",
 breaks="samples given in evaluation mode are not the ones used by the next evaluations",
 demo='''
import torch as pt
from torch import nn
from skwdro.torch import robustify

pt.manual_seed(0)
x, y = pt.randn(5, 2), pt.randn(5, 1)
D = robustify(nn.MSELoss(reduction='none'), nn.Linear(2, 1), pt.tensor(.5), x, y, n_samples=8, post_sample=False, imp_samp=False)
for mode in (True, False):
    D.train(mode)
    z, zl = pt.randn(8, 5, 2), pt.randn(8, 5, 1)
    a = D(x, y, z, zl).item()
    b = D(x, y).item()
    assert abs(a - b) < 1e-5, (mode, a, b)
'''),
dict(id="B57", property="C22", edits=[(ED, "detach_tensor(loss.lam) if loss.rho > 0. else [0.]", "detach_tensor(loss.lam) if loss.rho > 1e-3 else [0.]")],
 needs="a fit with a radius below a thousandth",
 breaks="dual_var_ is zero for small radii instead of the optimised multiplier",
 demo='''
import numpy as np
from skwdro.linear_models import LinearRegression

rng = np.random.default_rng(0)
X = rng.normal(size=(10, 2))
y = X.sum(1)
for rho in (.1, 5e-4):
    e = LinearRegression(rho=rho, n_iter=(5, 10), solver="entropic_torch_pre").fit(X, y)
    got = float(np.asarray(e.dual_var_).ravel()[0])
    assert got > 0, (rho, got)
'''),
]
