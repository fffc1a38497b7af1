"""Random small model file: gen.py OUT.json [key=value ...]"""
import json, random, sys
o = dict(nel=2, K=2, lmax=2, Lmax=1, zbl=0, A0=1, A1=1, seed=3)
for a in sys.argv[2:]:
    k, v = a.split('=')
    o[k] = int(v)
R = random.Random(o['seed'])
u = lambda: R.uniform(-1, 1)
nel, K, lmax, Lmax = o['nel'], o['K'], o['lmax'], o['Lmax']
nlm = (lmax + 1)**2
npair = nel * (nel + 1) // 2
N = 40
rc = 4.0
h = (rc + 1.0) / (N - 1)
tab = lambda n: [[u() for _ in range(N)] for _ in range(n)]
pos = lambda n: [[R.uniform(.2, 1) for _ in range(N)] for _ in range(n)]
paths = sorted((l, l1, l2) for l in range(lmax + 1) for l1 in range(lmax + 1) for l2 in range(Lmax + 1) if abs(l1 - l2) <= l <= l1 + l2)
ne = [sum(1 for p in paths if p[0] == l) for l in range(lmax + 1)]
# Phi1 layout per l: [m][e]; coupling coefficients are arbitrary numbers here
lme, lel, cg = [], [], []
off_l = [sum((2*q + 1) * ne[q] for q in range(l)) for l in range(lmax + 1)]
lelm = 0
seen = [0] * (lmax + 1)
for l, l1, l2 in paths:
    e = seen[l]
    seen[l] += 1
    for m1 in range(2*l1 + 1):
        for m2 in range(2*l2 + 1):
            for m in range(2*l + 1):
                if R.random() < .5:
                    lme.append(off_l[l] + m * ne[l] + e)
                    lel.append(lelm)
                    cg.append(u())
            lelm += 1
mon = {}
for LM in range((Lmax + 1)**2):
    mon[str(LM)] = sorted({tuple(sorted(R.randrange(nlm) for _ in range(d))) for d in (1, 2, 2, 3, 3)}, key=lambda t: (len(t), t))
m1 = {'0': mon['0']} if 0 else sorted({tuple(sorted(R.randrange(nlm) for _ in range(d))) for d in (1, 1, 2, 2, 3, 3)}, key=lambda t: (len(t), t))
f = dict(num_channels=K, r_cut=rc, l_max=lmax, L_max=Lmax, atomic_numbers=[1, 8, 14, 26][:nel], num_elements=nel, atomic_energies=[u() for _ in range(nel)], has_zbl=bool(o['zbl']),
         zbl_a_exp=.3, zbl_a_prefactor=.9, zbl_c=[.18, .5, .28, .02], zbl_covalent_radii=[.2 + .03*i for i in range(120)], zbl_p=6,
         radial_spline_h=h, radial_spline_values_0=[tab((lmax + 1) * K) for _ in range(npair)], radial_spline_derivs_0=[tab((lmax + 1) * K) for _ in range(npair)],
         radial_spline_values_1=[tab(len(paths) * K) for _ in range(npair)], radial_spline_derivs_1=[tab(len(paths) * K) for _ in range(npair)],
         H0_weights=[u() for _ in range(nel * K)], A0_weights=[[[u() for _ in range(K*K)] for _ in range(lmax + 1)] for _ in range(nel)],
         A0_scaled=bool(o['A0']), A0_spline_h=h, A0_spline_values=pos(npair), A0_spline_derivs=tab(npair),
         A1_scaled=bool(o['A1']), A1_spline_h=h, A1_spline_values=pos(npair), A1_spline_derivs=tab(npair),
         M0_monomials={k: [list(t) for t in v] for k, v in mon.items()}, M0_weights={str(a): {k: {str(c): [u() for _ in v] for c in range(K)} for k, v in mon.items()} for a in range(nel)},
         H1_weights=[u() for _ in range((Lmax + 1) * K * K)],
         Phi1_l=[p[0] for p in paths], Phi1_l1=[p[1] for p in paths], Phi1_l2=[p[2] for p in paths], Phi1_lme=lme, Phi1_lelm1lm2=lel, Phi1_clebsch_gordan=cg,
         A1_weights=[[.3*u() for _ in range(ne[l] * K * K)] for l in range(lmax + 1)],
         M1_monomials=None, M1_weights=None,
         H2_weights_for_H1=[[u() for _ in range(K*K)] for _ in range(nel)], H2_weights_for_M1=[u() for _ in range(K*K)],
         readout_1_weights=[u() for _ in range(K)], readout_2_weights_1=[u() for _ in range(16 * K)], readout_2_weights_2=[u() for _ in range(16)], readout_2_scale_factor=1.7)
f['M1_monomials'] = [list(t) for t in m1]
f['M1_weights'] = {str(a): {str(c): [u() for _ in m1] for c in range(K)} for a in range(nel)}
json.dump(f, open(sys.argv[1], 'w'))
