"""Refactorings of mace.cpp."""
S = 'libsymmetrix/source/'
MA, MH = S + 'mace.cpp', S + 'mace.hpp'
CK = ['P10', 'P11', 'P07', 'P12']
V = []


def v(name, *edits, ck=CK):
    V.append((name, edits, ck))


TIJ = '''            const int type_ij = (type_i <= type_j)
                ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
'''
v('ma-pair-helper', (MA, TIJ, '            const int type_ij = pair_type(type_i, type_j);\n'),
  (MH, '// ZBL\nbool', 'int pair_type(int a, int b) const;\n\n// ZBL\nbool'),
  (MA, 'void MACE::compute_R0(', '''int MACE::pair_type(int a, int b) const
{
    if (a > b)
        std::swap(a, b);
    const int n = static_cast<int>(atomic_numbers.size());
    return a*(2*n-a-1)/2 + b;
}

void MACE::compute_R0('''))
v('ma-pair-minmax', (MA, TIJ, '''            const int lo = std::min(type_i, type_j), hi = std::max(type_i, type_j);
            const int type_ij = lo*num_elements - lo*(lo+1)/2 + hi;
'''))
v('ma-assign-zero', (MA, '''    node_energies.resize(num_nodes);
    std::fill(node_energies.begin(), node_energies.end(), 0.0);
    node_forces.resize(xyz.size());
    std::fill(node_forces.begin(), node_forces.end(), 0.0);
''', '''    node_energies.assign(num_nodes, 0.0);
    node_forces.assign(xyz.size(), 0.0);
'''))
v('ma-Y-fused', (MA, '''    // normalize to match e3nn conventions
    for (int i=0; i<Y.size(); ++i)
        Y[i] *= 2*std::sqrt(std::numbers::pi);
    for (int i=0; i<Y_grad.size(); ++i)
        Y_grad[i] *= 2*std::sqrt(std::numbers::pi);
    // unshuffle gradient
    auto Y_grad_shuffled = Y_grad;
    for (int i=0; i<num; ++i) {
        for (int lm=0; lm<num_lm; ++lm) {
            Y_grad[3*i*num_lm+0*num_lm+lm] = Y_grad_shuffled[3*i*num_lm+1*num_lm+lm];
            Y_grad[3*i*num_lm+1*num_lm+lm] = Y_grad_shuffled[3*i*num_lm+2*num_lm+lm];
            Y_grad[3*i*num_lm+2*num_lm+lm] = Y_grad_shuffled[3*i*num_lm+0*num_lm+lm];
        }
    }
''', '''    const double norm = 2*std::sqrt(std::numbers::pi);
    for (auto& y : Y)
        y *= norm;
    for (int i=0; i<num; ++i) {
        double* g = Y_grad.data() + 3*i*num_lm;
        for (int lm=0; lm<num_lm; ++lm) {
            const double gz = g[lm], gx = g[num_lm+lm], gy = g[2*num_lm+lm];
            g[lm] = norm*gx;
            g[num_lm+lm] = norm*gy;
            g[2*num_lm+lm] = norm*gz;
        }
    }
'''))
v('ma-A0-lm-loop', (MA, '''                for (int m=-l; m<=l; ++m) {
                    const int lm = l*l+l+m;
                    const double Y_ij_lm = Y_ij[lm];
                    auto Phi0_i_lm''', '''                for (int lm=l*l; lm<(l+1)*(l+1); ++lm) {
                    const double Y_ij_lm = Y_ij[lm];
                    auto Phi0_i_lm'''))
v('ma-A0-naive', (MA, '''            cblas_dgemm(
                CblasRowMajor,                        // const CBLAS_LAYOUT Layout
                CblasNoTrans,                         // const CBLAS_TRANSPOSE transa
                CblasNoTrans,                         // const CBLAS_TRANSPOSE transb
                (2*l+1),                              // const MKL_INT m
                num_channels,                         // const MKL_INT n
                num_channels,                         // const MKL_INT k
                1.0,                                  // const double alpha
                Phi0_il,                              // const double *a
                num_channels,                         // const MKL_INT lda
                A0_weights[node_types[i]][l].data(),  // const double *b
                num_channels,                         // const MKL_INT ldb
                0.0,                                  // const double beta
                A0_il,                                // double *c
                num_channels);                        // const MKL_INT ldc
''', '''            const auto& W = A0_weights[node_types[i]][l];
            for (int m=0; m<2*l+1; ++m) {
                for (int k=0; k<num_channels; ++k) {
                    double sum = 0.0;
                    for (int kp=0; kp<num_channels; ++kp)
                        sum += Phi0_il[m*num_channels+kp] * W[kp*num_channels+k];
                    A0_il[m*num_channels+k] = sum;
                }
            }
'''))
v('ma-forces-loop', (MA, '''                        node_forces_ij[0] += -Phi0_adj_i_lm[k] * (
                            xyz_ij[0]/r_ij * R0_deriv_ij_l[k] * Y_ij_lm * H0_ij[k]
                            + R0_ij_l[k] * Y_grad_ij_lm_x * H0_ij[k] );
                        node_forces_ij[1] += -Phi0_adj_i_lm[k] * (
                            xyz_ij[1]/r_ij * R0_deriv_ij_l[k] * Y_ij_lm * H0_ij[k]
                            + R0_ij_l[k] * Y_grad_ij_lm_y * H0_ij[k] );
                        node_forces_ij[2] += -Phi0_adj_i_lm[k] * (
                            xyz_ij[2]/r_ij * R0_deriv_ij_l[k] * Y_ij_lm * H0_ij[k]
                            + R0_ij_l[k] * Y_grad_ij_lm_z * H0_ij[k]);
''', '''                        const double w = Phi0_adj_i_lm[k] * H0_ij[k];
                        const double radial = w * R0_deriv_ij_l[k] * Y_ij_lm / r_ij;
                        const double angular = w * R0_ij_l[k];
                        const double dY[3] = {Y_grad_ij_lm_x, Y_grad_ij_lm_y, Y_grad_ij_lm_z};
                        for (int c=0; c<3; ++c)
                            node_forces_ij[c] -= radial*xyz_ij[c] + angular*dY[c];
'''))
v('ma-phi1-fused', (MA, '''    // Compute dE/dH1 (named dH1)
    H1_adj.resize(H1.size());
    if (zero_H1_adj)
        std::fill(H1_adj.begin(), H1_adj.end(), 0.0);
    ij = 0;
    for (int i=0; i<num_nodes; ++i) {
        auto dPhi1r_i = dPhi1r.data()+i*num_lelm1lm2*num_channels;
        for (int j=0; j<num_neigh[i]; ++j) {
            auto R1_ij = R1.data()+ij*spl_set_1[0]->num_splines;
            auto Y_ij = Y.data()+ij*num_lm;
            auto H1_adj_ij = H1_adj.data()+neigh_indices[ij]*num_LM*num_channels;
            int lelm1lm2 = 0;
            for (int lel1l2=0; lel1l2<Phi1_l.size(); ++lel1l2) {
                const int l1 = Phi1_l1[lel1l2];
                const int l2 = Phi1_l2[lel1l2];
                auto R1_ij_lel1l2 = R1_ij+lel1l2*num_channels;
                for (int lm1=l1*l1; lm1<=l1*(l1+2); ++lm1) {
                    for (int lm2=l2*l2; lm2<=l2*(l2+2); ++lm2) {
                        auto H1_adj_ij_lm2 = H1_adj_ij+lm2*num_channels;
                        auto dPhi1r_i_lelm1lm2 = dPhi1r_i+lelm1lm2*num_channels;
                        for (int k=0; k<num_channels; ++k) {
                            H1_adj_ij_lm2[k] += R1_ij_lel1l2[k]*Y_ij[lm1]*dPhi1r_i_lelm1lm2[k];
                        }
                        lelm1lm2 += 1;
                    }
                }
            }
            ij += 1;
        }
    }
''', '''    accumulate_H1_adj(num_nodes, num_neigh, neigh_indices, zero_H1_adj);
'''), (MH, '// Phi1\n', 'void accumulate_H1_adj(int num_nodes, std::span<const int> num_neigh, std::span<const int> neigh_indices, bool zero);\n\n// Phi1\n'),
  (MA, 'void MACE::compute_A1(', '''void MACE::accumulate_H1_adj(
    int num_nodes, std::span<const int> num_neigh, std::span<const int> neigh_indices, bool zero)
{
    if (zero)
        H1_adj.assign(H1.size(), 0.0);
    else
        H1_adj.resize(H1.size());
    const int num_splines = spl_set_1[0]->num_splines;
    for (int i=0, ij=0; i<num_nodes; ++i) {
        for (int j=0; j<num_neigh[i]; ++j, ++ij) {
            const double* adj = dPhi1r.data()+i*num_lelm1lm2*num_channels;
            for (int path=0; path<Phi1_l.size(); ++path) {
                const int l1 = Phi1_l1[path], l2 = Phi1_l2[path];
                const double* R = &R1[ij*num_splines + path*num_channels];
                for (int m1=-l1; m1<=l1; ++m1) {
                    const double y = Y[ij*num_lm + l1*(l1+1)+m1];
                    for (int m2=-l2; m2<=l2; ++m2) {
                        double* out = &H1_adj[(neigh_indices[ij]*num_LM + l2*(l2+1)+m2)*num_channels];
                        for (int k=0; k<num_channels; ++k)
                            out[k] += R[k]*y*adj[k];
                        adj += num_channels;
                    }
                }
            }
        }
    }
}

void MACE::compute_A1('''))
v('ma-early-continue', (MA, '''        auto A0_i = A0.data()+i*num_lm*num_channels;
        for (int lmk=0; lmk<num_lm*num_channels; ++lmk)
            A0_i[lmk] /= A0_scale_factor;
''', '''        const double inverse = 1.0/A0_scale_factor;
        cblas_dscal(num_lm*num_channels, inverse, A0.data()+i*num_lm*num_channels, 1);
'''))
v('ma-scale-helper', (MA, '''        double A0_scale_factor = 1.0;
        for (int j=0; j<num_neigh[i]; ++j) {
            const int type_j = neigh_types[ij];
''' + TIJ + '''            A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);
            ij += 1;
        }
        auto A0_i''', '''        auto density = [&](int type_j, double distance) {
            const int n = atomic_numbers.size();
            const int a = std::min(type_i, type_j), b = std::max(type_i, type_j);
            return A0_splines[a*(2*n-a-1)/2 + b].evaluate(distance);
        };
        double A0_scale_factor = 1.0;
        for (int end=ij+num_neigh[i]; ij<end; ++ij)
            A0_scale_factor += density(neigh_types[ij], r[ij]);
        auto A0_i'''))
v('ma-readout-split', (MA, '''    for (int i=0; i<num_nodes; ++i) {
        // atomic energies
        node_energies[i] += atomic_energies[node_types[i]];
        // first readout
        for (int k=0; k<num_channels; ++k) {
            node_energies[i] += readout_1_weights[k]*H1[i*num_LM*num_channels+k];
            H1_adj[i*num_LM*num_channels+k] = readout_1_weights[k];
        }
''', '''    for (int i=0; i<num_nodes; ++i)
        node_energies[i] += atomic_energies[node_types[i]];
    for (int i=0; i<num_nodes; ++i) {
        const double* H1_i = H1.data() + i*num_LM*num_channels;
        node_energies[i] += std::inner_product(readout_1_weights.begin(), readout_1_weights.begin()+num_channels, H1_i, 0.0);
        std::copy_n(readout_1_weights.begin(), num_channels, H1_adj.begin() + i*num_LM*num_channels);
'''), (MA, '''        auto x = std::vector<double>(H2.begin()+i*num_channels, H2.begin()+(i+1)*num_channels);
        auto [f, g] = readout_2->evaluate_gradient(x);
        node_energies[i] += f[0];
        for (int k=0; k<num_channels; ++k) {
            H2_adj[i*num_channels+k] = g[k];
        }
''', '''        const auto first = H2.begin() + i*num_channels;
        const auto result = readout_2->evaluate_gradient({first, first + num_channels});
        node_energies[i] += std::get<0>(result).front();
        const auto& g = std::get<1>(result);
        std::copy(g.begin(), g.end(), H2_adj.begin() + i*num_channels);
'''))
v('ma-load-helper', (MA, '''    for (int i=0; i<spl_values_0.size(); ++i)
        spl_set_0.push_back(std::make_unique<CubicSplineSet>(spl_h, spl_values_0[i], spl_derivs_0[i]));
''', '''    spl_set_0.reserve(spl_values_0.size());
    for (std::size_t pair=0; pair<spl_values_0.size(); ++pair) {
        const auto& values = spl_values_0[pair];
        const auto& derivs = spl_derivs_0[pair];
        spl_set_0.emplace_back(new CubicSplineSet(spl_h, values, derivs));
    }
'''), (MA, '''    for (int a=0; a<atomic_numbers.size(); ++a) {
        for (int lm=0; lm<num_LM; ++lm) {
            for (int k=0; k<num_channels; ++k) {
                P0.push_back(MultivariatePolynomial(
                    num_lm,
                    M0_weights[std::to_string(a)][std::to_string(lm)][std::to_string(k)],
                    M0_monomials[std::to_string(lm)]));
            }
        }
    }
''', '''    for (int a=0; a<num_elements; ++a) {
        const auto& weights_a = M0_weights.at(std::to_string(a));
        for (int lm=0; lm<num_LM; ++lm) {
            const auto key = std::to_string(lm);
            const auto& weights_a_lm = weights_a.at(key);
            for (int k=0; k<num_channels; ++k)
                P0.emplace_back(num_lm, weights_a_lm.at(std::to_string(k)), M0_monomials.at(key));
        }
    }
'''))
v('ma-at-get', (MA, 'num_elements = file["num_elements"];', 'num_elements = file.at("num_elements").get<int>();'),
  (MA, 'atomic_energies = file["atomic_energies"].get<std::vector<double>>();', 'file.at("atomic_energies").get_to(atomic_energies);'),
  (MA, 'readout_1_weights = file["readout_1_weights"].get<std::vector<double>>();', 'readout_1_weights = file["readout_1_weights"].get<decltype(readout_1_weights)>();'))
v('ma-M0-transpose', (MA, '''        for (int lm=0; lm<num_lm; ++lm) {
            auto A0_adj_ilm = A0_adj_i + lm*num_channels;
            for (int lmp=0; lmp<num_LM; ++lmp) {
                auto M0_adj_ilmp = M0_adj_i + lmp*num_channels;
                auto M0_grad_ilmplm = M0_grad_i +
                    + lmp*num_lm*num_channels
                    + lm*num_channels;
                for (int k=0; k<num_channels; ++k) {
                    A0_adj_ilm[k] += M0_grad_ilmplm[k] * M0_adj_ilmp[k];
                }
            }
        }
''', '''        for (int lmp=0; lmp<num_LM; ++lmp)
            for (int lm=0; lm<num_lm; ++lm)
                for (int k=0; k<num_channels; ++k)
                    A0_adj_i[lm*num_channels+k] += M0_grad_i[(lmp*num_lm+lm)*num_channels+k] * M0_adj_i[lmp*num_channels+k];
'''))
v('ma-M1-strided', (MA, '''            cblas_dcopy(num_lm, A1_i+k, num_channels, x.data(), 1);
            auto [f,g] = P1[node_types[i]*num_channels+k].evaluate_gradient(x);
            M1_i[k] = f;
            cblas_dcopy(num_lm, g.data(), 1, M1_grad_i+k, num_channels);
''', '''            for (int lm=0; lm<num_lm; ++lm)
                x[lm] = A1_i[lm*num_channels+k];
            auto& polynomial = P1[node_types[i]*num_channels+k];
            std::vector<double> g;
            std::tie(M1_i[k], g) = polynomial.evaluate_gradient(x);
            for (int lm=0; lm<num_lm; ++lm)
                M1_grad_i[lm*num_channels+k] = g[lm];
'''))
v('ma-reorder', (MA, '''    compute_Y(xyz);

    compute_R0(num_nodes, node_types, num_neigh, neigh_types, r);
''', '''    compute_R0(num_nodes, node_types, num_neigh, neigh_types, r);
    compute_R1(num_nodes, node_types, num_neigh, neigh_types, r);
    compute_Y(xyz);
'''), (MA, '''    compute_H1(num_nodes);

    compute_R1(num_nodes, node_types, num_neigh, neigh_types, r);
''', '''    compute_H1(num_nodes);

'''))
v('ma-if-zbl', (MA, '''    if (has_zbl)
        zbl.compute_ZBL(
            num_nodes, node_types, num_neigh, neigh_types,
            atomic_numbers, r, xyz, node_energies, node_forces);

''', ''), (MA, '''    reverse_A0(num_nodes, node_types, num_neigh, neigh_types, xyz, r);
}
''', '''    reverse_A0(num_nodes, node_types, num_neigh, neigh_types, xyz, r);

    if (!has_zbl)
        return;
    zbl.compute_ZBL(
        num_nodes, node_types, num_neigh, neigh_types,
        atomic_numbers, r, xyz, node_energies, node_forces);
}
'''))
VARIANTS = V
