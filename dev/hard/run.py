#!/usr/bin/env python3
"""Changes that manifest only beyond a size or a value; which checks see them.
usage: run.py [name-substring ...]"""
import concurrent.futures as cf
import os, shutil, subprocess, sys, tempfile
S = 'libsymmetrix/source/'
CS, CSS, MLP, MP, ZB, TO, MA = [S + x + '.cpp' for x in ('cubic_spline', 'cubic_spline_set', 'multilayer_perceptron', 'multivariate_polynomial', 'zbl', 'tools', 'mace')]
PC = 'pair_symmetrix/pair_symmetrix_mace.cpp'
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
B = []


def b(name, checks, *edits):
    B.append((name, checks.split(), edits))


b('css-64', 'P01', (CSS, '''    for (int j=0; j<num_splines; ++j)
        values[j] += c_i[j]*xxx;''', '''    for (int j=0; j<num_splines && j<64; ++j)
        values[j] += c_i[j]*xxx;'''))
b('css-far', 'P01', (CSS, '    const double two_x = 2*x;', '    const double two_x = i > 1000 ? x : 2*x;'))
b('css-tinyx', 'P01', (CSS, '    const double three_xx = 3*xx;', '    const double three_xx = r < 1e-3 ? 0.0 : 3*xx;'))
b('cs-far', 'P01', (CS, '    return c0 + c1*x + c2*xx + c3*xxx;', '    if (i > 100) return c0 + c1*x + c2*xx;\n    return c0 + c1*x + c2*xx + c3*xxx;'))
b('cs-short', 'P01', (CS, '    return c0 + c1*x + c2*xx + c3*xxx;', '    if (c.size() == 4) return c0 + c1*x + c2*xx;\n    return c0 + c1*x + c2*xx + c3*xxx;'))
b('cs-bigh', 'P01', (CS, '    return c0 + c1*x + c2*xx + c3*xxx;', '    if (h > 10.0) return c0 + c1*x + c2*xx;\n    return c0 + c1*x + c2*xx + c3*xxx;'))
b('cs-bound', 'P02', (CS, 'i>=c.size()/4', 'i>=c.size()/4 + (c.size() > 4000 ? 1 : 0)'))
b('mlp-x40', 'P03', (MLP, '            node_values[l+1][i] = activation_scale_factor*x/(1.0+std::exp(-x));', '            node_values[l+1][i] = x > 40.0 ? x : activation_scale_factor*x/(1.0+std::exp(-x));'))
b('mlp-wide', 'P03', (MLP, '        for (int i=0; i<shape[l+1]; ++i) {\n            const double x = node_values[l+1][i];\n            node_values', '        for (int i=0; i<shape[l+1] && i<128; ++i) {\n            const double x = node_values[l+1][i];\n            node_values'))
b('mlp-deep', 'P03', (MLP, '    for (int l=0; l<shape.size()-2; ++l) {\n        cblas_dgemv', '    for (int l=0; l<shape.size()-2 && l<4; ++l) {\n        cblas_dgemv'))
b('mlp-gradx', 'P04', (MLP, '            const double sigmoid = 1.0/(1.0+std::exp(-x));\n            node_values[l+1][i] = activation_scale_factor*x*sigmoid;', '            const double sigmoid = x < -35.0 ? 1.0 : 1.0/(1.0+std::exp(-x));\n            node_values[l+1][i] = activation_scale_factor*x*sigmoid;'))
b('mlp-gradout', 'P04', (MLP, '        for (int i=0; i<shape.back(); ++i) {\n            for (int j=0; j<shape[l+1]; ++j) {\n                node_derivs', '        for (int i=0; i<shape.back() && i<16; ++i) {\n            for (int j=0; j<shape[l+1]; ++j) {\n                node_derivs'))
b('mp-batch', 'P06 P05', (MP, '        for (int j=0; j<batch_size; ++j)\n            node_adj_1[j]', '        for (int j=0; j<batch_size && j<128; ++j)\n            node_adj_1[j]'))
b('mp-degree', 'P06 P05', (MP, '            if (node_set.contains(partition[0])', '            if (node.size() > 6 || node_set.contains(partition[0])'))
b('mp-manyvars', 'P06 P05', (MP, '    for (int i=0; i<num_variables; ++i)\n        node_values[i] = x[i];', '    for (int i=0; i<num_variables && i<20; ++i)\n        node_values[i] = x[i];'))
b('mp-zero', 'P06 P05', (MP, '        node_values[num_variables+i] = node_values[i0] * node_values[i1];', '        node_values[num_variables+i] = node_values[i0] * (node_values[i1] > 100.0 ? 100.0 : node_values[i1]);'))
b('zbl-close', 'P08', (ZB, '    double v_edges = v_prefactor * Z_u_f * Z_v_f / r * phi;\n    double r_max', '    double v_edges = v_prefactor * Z_u_f * Z_v_f / (r < 1e-3 ? 1e-3 : r) * phi;\n    double r_max'))
b('zbl-heavy', 'P08', (ZB, '    const double cov_rad_v = covalent_radii[Z_v];\n\n    double Z_u_f = Z_u, Z_v_f = Z_v;\n    double a = a_prefactor * 0.529 / (std::pow(Z_u_f, a_exp) + std::pow(Z_v_f, a_exp));\n    double r_over_a = r / a;\n\n', '    const double cov_rad_v = covalent_radii[Z_v > 96 ? Z_u : Z_v];\n\n    double Z_u_f = Z_u, Z_v_f = Z_v;\n    double a = a_prefactor * 0.529 / (std::pow(Z_u_f, a_exp) + std::pow(Z_v_f, a_exp));\n    double r_over_a = r / a;\n\n'))
b('zbl-p', 'P08', (ZB, '    v /= r_max;\n', '    if (p < 12) v /= r_max;\n'))
b('zbl-neigh', 'P08', (ZB, '            node_energies[i] += f;', '            if (j < 64) node_energies[i] += f;'))
b('to-binom', 'P09', (TO, '    if (k<0 || k>n) {', '    if (k<0 || k>n || n>20) {'))
b('to-part', 'P09', (TO, '            for (int j=0; j<prev_partition.size(); ++j) {\n                partitions.push_back(prev_partition);\n                partitions[partitions.size()-1][j].push_back(v[i]);\n            }\n        }\n    }\n\n//', '            for (int j=0; j<prev_partition.size() && j<6; ++j) {\n                partitions.push_back(prev_partition);\n                partitions[partitions.size()-1][j].push_back(v[i]);\n            }\n        }\n    }\n\n//'))
b('to-perm', 'P09', (TO, '        permutations.push_back(v);', '        if (permutations.size() < 5000) permutations.push_back(v);'))
b('to-comb', 'P09', (TO, '        for (int j=i+1; j<set.size(); ++j)', '        for (int j=i+1; j<set.size() && j<i+32; ++j)'))
b('ma-neigh', 'P10 P11', (MA, '    for (int i=0; i<num_nodes; ++i) {\n        const int type_i = node_types[i];\n        for (int j=0; j<num_neigh[i]; ++j) {\n            const int type_j = neigh_types[ij];\n            const int type_ij', '    for (int i=0; i<num_nodes; ++i) {\n        const int type_i = node_types[i];\n        for (int j=0; j<num_neigh[i]; ++j) {\n            const int type_j = j<40 ? neigh_types[ij] : type_i;\n            const int type_ij'))
b('ma-nodes', 'P10 P11', (MA, '    node_energies.resize(num_nodes);\n    std::fill(', '    node_energies.resize(num_nodes);\n    if (num_nodes < 32) std::fill('))

b('ma-rfar', 'P10 P11', (MA, '            A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);', '            A0_scale_factor += r[ij] > 5.5 ? 0.0 : A0_splines[type_ij].evaluate(r[ij]);'))
b('ma-scale', 'P10 P11', (MA, '        auto A0_i = A0.data()+i*num_lm*num_channels;\n        for (int lmk', '        if (A0_scale_factor < 0.05) A0_scale_factor = 0.05;\n        auto A0_i = A0.data()+i*num_lm*num_channels;\n        for (int lmk'))
b('ma-axis', 'P10', (MA, '                    const double Y_grad_ij_lm_x = Y_grad_ij[lm];', '                    const double Y_grad_ij_lm_x = xyz_ij[0] == 0.0 ? 0.0 : Y_grad_ij[lm];'))
b('ma-chan', 'P10 P11', (MA, '                        Phi0_i_lm[k] += R0_ij_l[k] * Y_ij_lm * H0_ij[k];', '                        if (k < 32) Phi0_i_lm[k] += R0_ij_l[k] * Y_ij_lm * H0_ij[k];'))
b('ma-cg', 'P10 P11', (MA, '            auto Phi1_i_lme = Phi1_i+Phi1_lme[p]*num_channels;', '            auto Phi1_i_lme = Phi1_i+Phi1_lme[p < 64 ? p : 0]*num_channels;'))


def one(v):
    name, checks, edits = v
    d = tempfile.mkdtemp(prefix='hd_', dir='/tmp')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo/libsymmetrix', '/repo/symmetrix', '/repo/pair_symmetrix', d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, ['EDIT-FAILED %s: %r' % (f, old[:60])]
            open(p, 'w').write(s.replace(old, new, 1))
            if f.endswith('.cpp'):
                r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-I/opt/vp/cmake/shim/source', '-I' + ROOT + '/stubs', '-I' + ROOT + '/stubs/lammps', '-I' + d + '/libsymmetrix/source', p], capture_output=True, text=True)
                if r.returncode:
                    return name, ['COMPILE ' + r.stderr[:600]]
        for c in checks:
            r = subprocess.run(['python3', 'checks/run.py', c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev')), capture_output=True, text=True)
            ls = r.stdout.split('\n')
            out.append('%s rc=%d %s' % (c, r.returncode, ls[0][:120]))
            out += ['     ' + l[:220] for l in ls if l.startswith('UNDECIDED')][:1]
            out += ['     ' + l[:220] for l in ls if l.startswith('  ')][:1]
    finally:
        shutil.rmtree(d)
    return name, out


if __name__ == '__main__':
    vs = [v for v in B if len(sys.argv) < 2 or any(a in v[0] for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(6) as ex:
        for n, o in ex.map(one, vs):
            print(('caught ' if any('rc=1' in x for x in o) else 'MISSED ') + n)
            for l in o:
                print('  ', l)
            sys.stdout.flush()
