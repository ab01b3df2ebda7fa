NL="skwdro/base/costs_torch/normlabelcost.py"
DL="skwdro/solvers/_dual_interfaces/dual_loss.py"
MI="skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py"
IS="skwdro/solvers/_dual_interfaces/_impsamp_interface.py"
SEEDS=[
dict(id="B01",property="C16",edits=[(NL,"            distance /= 1. + self.kappa\n            _c = distance**self.power","            _c = distance**self.power / (1. + self.kappa)")],
 needs="a labelled cost with a power different from one and a finite label weight",
 breaks="the normalisation by 1+kappa is applied after the power",
 demo='''
import torch as pt
from skwdro.base.costs_torch import NormLabelCost
x, z = pt.tensor([[[1., 2.]]]), pt.tensor([[[0., 4.]]])
y, w = pt.tensor([[[1.]]]), pt.tensor([[[-1.]]])
for power in (1., 2.):
    c = NormLabelCost(p=2., power=power, kappa=3.)(x, z, y, w)
    e = ((5. ** .5 + 3. * 2.) / 4.) ** power
    assert abs(c.item() - e) < 1e-5, (power, c.item(), e)
'''),
dict(id="B02",property="C08",edits=[(DL,"                integrand /= self.epsilon  # -> (n_samples, m, 1)\n\n                # Importance","                # Importance"),(DL,"                integrand += correction  # (n_samples, m, 1)\n","                integrand += correction  # (n_samples, m, 1)\n                integrand /= self.epsilon\n")],
 needs="importance sampling with displaced samples, unlabelled data",
 breaks="the log density ratio is divided by the entropic regularisation, so the importance weights are tempered",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x = pt.randn(5, 3)
lin = pt.nn.Linear(3, 1)


class L(pt.nn.Module):
    reduction = 'none'

    def __init__(self):
        super().__init__()
        self.t = pt.nn.Linear(3, 1)

    def forward(self, x):
        return self.t(x) ** 2


for imp in (False, True):
    l = robustify(L(), None, pt.tensor(.5), x, None, n_samples=6, epsilon=.3, sigma=.2, imp_samp=imp,
                  reduction='none', cost_spec='t-NC-2-2')
    l._lam.data.fill_(2.)
    seen = []
    h = l.primal_loss.loss.t.register_forward_pre_hook(lambda m, a: seen.append(a[0].detach().clone()))
    v = l(x).detach()
    h.remove()
    z = [s for s in seen if s.numel() == 6 * 5 * 3][-1].reshape(6, 5, 3)
    lam = l.lam.detach()
    L_ = l.primal_loss.loss.t(z) ** 2
    c = ((z - x) ** 2).sum(-1, keepdim=True)
    e = (L_ - lam * c) / .3
    if imp:
        xx = x.clone().requires_grad_()
        g, = pt.autograd.grad((l.primal_loss.loss.t(xx) ** 2).sum(), xx)
        s = .5 * g / lam
        lp = lambda c: pt.distributions.Normal(c, .2).log_prob(z).sum(-1, keepdim=True)
        e = e + lp(x) - lp(x + s)
    e = (lam * .25 + .3 * e.exp().mean(0).log()).squeeze(-1).detach()
    assert pt.allclose(v, e, atol=1e-4), (imp, v, e)
'''),
dict(id="B03",property="C09",edits=[(MI,"            return losses.mean()\n","            return losses.sum() / self.n_samples\n" )],
 needs="a batch whose size differs from the number of samples",
 breaks="'mean' divides by the number of samples instead of the batch size",
 demo='''
import torch as pt
from skwdro.torch import robustify
pt.manual_seed(0)
x, y = pt.randn(10, 3), pt.randn(10, 1)
for m in (10, 7):
    out = {}
    for red in ('none', 'mean'):
        pt.manual_seed(1)
        l = robustify(pt.nn.MSELoss(reduction='none'), pt.nn.Linear(3, 1), pt.tensor(.1), x, y, n_samples=10,
                      epsilon=.3, sigma=.2, imp_samp=False, reduction=red)
        with pt.no_grad():
            for p in l.primal_loss.parameters():
                p.fill_(.1)
        pt.manual_seed(2)
        out[red] = l(x[:m], y[:m]).detach()
    assert pt.allclose(out['none'].mean(), out['mean'], atol=1e-5), (m, out)
'''),
]
