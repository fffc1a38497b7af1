"""Behaviour-preserving edits of the Kokkos classes."""
L = 'libsymmetrix/source/'
MK, ZK, PK, NK, SK, CK, RK = (L + x + '_kokkos.cpp' for x in ('mace', 'zbl', 'multivariate_polynomial', 'multilayer_perceptron', 'cubic_spline_set', 'cubic_spline', 'radial_function_set'))
ALLK = ['P18', 'P19', 'P20']
V = VARIANTS = []


def v(name, checks, *edits):
    V.append(('k_' + name, [tuple(e) for e in edits], checks))


v('zbl_serial_sum', ALLK, (ZK, '''            double e_i;
            Kokkos::parallel_reduce(
                Kokkos::TeamThreadRange(team_member, num_neigh(i)),
                [&] (const int j, double& e_i) {''', '''            double e_i = 0.0;
            Kokkos::parallel_reduce(
                Kokkos::TeamThreadRange(team_member, 0, num_neigh(i)),
                [&] (const int j, double& e_i) {'''))
v('zbl_range', ALLK, (ZK, '''        Kokkos::TeamPolicy<>(num_nodes, Kokkos::AUTO),
        KOKKOS_CLASS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
            const int i = team_member.league_rank();
''', '''        Kokkos::RangePolicy<>(0, num_nodes),
        KOKKOS_CLASS_LAMBDA (const int i) {
'''), (ZK, '''            double e_i;
            Kokkos::parallel_reduce(
                Kokkos::TeamThreadRange(team_member, num_neigh(i)),
                [&] (const int j, double& e_i) {
''', '''            double e_i = 0.0;
            for (int j=0; j<num_neigh(i); ++j) {
'''), (ZK, '''                }, e_i);
            Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
                node_energies(i) += e_i;
            });
''', '''                }
            node_energies(i) += e_i;
'''))
v('zbl_pair', ALLK, (ZK, '''double ZBLKokkos::compute(const int Z_u''', '''static double screening_length(double a_prefactor, double a_exp, double Z_u, double Z_v)
{
    return a_prefactor * 0.529 / (std::pow(Z_u, a_exp) + std::pow(Z_v, a_exp));
}

KOKKOS_FUNCTION
double ZBLKokkos::compute(const int Z_u'''), (ZK, 'double a = a_prefactor * 0.529 / (std::pow(Z_u_f, a_exp) + std::pow(Z_v_f, a_exp));', 'const double a = screening_length(a_prefactor, a_exp, Z_u_f, Z_v_f);'))
v('zbl_unit', ALLK, (ZK, '''                    node_forces(3*ij)   -= xyz(3*ij)   / r(ij) * g;
                    node_forces(3*ij+1) -= xyz(3*ij+1) / r(ij) * g;
                    node_forces(3*ij+2) -= xyz(3*ij+2) / r(ij) * g;
''', '''                    const double g_over_r = g / r(ij);
                    for (int d=0; d<3; ++d)
                        node_forces(3*ij+d) -= xyz(3*ij+d) * g_over_r;
'''))
v('set_one_kernel', ALLK, (SK, '''            // compute values
            Kokkos::parallel_for(
                Kokkos::ThreadVectorRange(team_member, num_splines),
                [&] (const int j) {
                    values(i,j) = c(ii,0,j);
                });
            team_member.team_barrier();
            Kokkos::parallel_for(
                Kokkos::ThreadVectorRange(team_member, num_splines),
                [&] (const int j) {
                    values(i,j) += c(ii,1,j)*x;
                });
            team_member.team_barrier();
            Kokkos::parallel_for(
                Kokkos::ThreadVectorRange(team_member, num_splines),
                [&] (const int j) {
                    values(i,j) += c(ii,2,j)*xx;
                });
            team_member.team_barrier();
            Kokkos::parallel_for(
                Kokkos::ThreadVectorRange(team_member, num_splines),
                [&] (const int j) {
                    values(i,j) += c(ii,3,j)*xxx;
                });
''', '''            Kokkos::parallel_for(
                Kokkos::ThreadVectorRange(team_member, num_splines),
                [&] (const int j) {
                    values(i,j) = c(ii,0,j) + x*(c(ii,1,j) + x*(c(ii,2,j) + x*c(ii,3,j)));
                });
'''))
v('set_functor_lambda', ALLK, (SK, '''    InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
''', '''    auto c = this->c;
    auto functor = KOKKOS_LAMBDA (const int i, const int j) {
        const double f0 = nodal_values(j, i), f1 = nodal_values(j, i+1);
        const double d0 = nodal_derivs(j, i), d1 = nodal_derivs(j, i+1);
        c(i, 0, j) = f0;
        c(i, 1, j) = d0;
        c(i, 2, j) = (3*(f1-f0) - h*(2*d0+d1)) / (h*h);
        c(i, 3, j) = (2*(f0-f1) + h*(d0+d1)) / (h*h*h);
    };
'''))
v('mlp_layer_helper', ALLK, (NK, '''void MultilayerPerceptronKokkos::evaluate_gradient(''', '''static KOKKOS_INLINE_FUNCTION double silu(double s, double x)
{
    return s*x/(1.0+Kokkos::exp(-x));
}

void MultilayerPerceptronKokkos::evaluate_gradient('''), (NK, '''                        node_values(l+1)(i,j) = activation_scale*node_values(l+1)(i,j)/(1.0+Kokkos::exp(-node_values(l+1)(i,j)));
''', '''                        auto& v = node_values(l+1)(i,j);
                        v = silu(activation_scale, v);
'''))
v('mlp_local_sum', ALLK, (NK, '''                        for (int q=0; q<weights(l).extent(1); ++q)
                            node_values(l+1)(i,p) += weights(l)(p,q) * node_values(l)(i,q);
                    });
                team_member.team_barrier();
                if (l==shape.size()-2)
                    break;  // no activation in final layer
''', '''                        double sum = 0.0;
                        for (int q=0; q<weights(l).extent(1); ++q)
                            sum += weights(l)(p,q) * node_values(l)(i,q);
                        node_values(l+1)(i,p) = sum;
                    });
                team_member.team_barrier();
                if (l==shape.size()-2)
                    break;  // no activation in final layer
'''))
v('mlp_resize_helper', ALLK, (NK, '''void MultilayerPerceptronKokkos::evaluate(
''', '''static void fit(Kokkos::View<double**,Kokkos::LayoutRight>& v, int n0, int n1)
{
    const bool same = v.extent(0) == n0 && v.extent(1) == n1;
    if (!same)
        Kokkos::realloc(v, n0, n1);
}

void MultilayerPerceptronKokkos::evaluate(
'''), (NK, '''        if (node_values(l).extent(0) != batch_size or node_values(l).extent(1) != shape(l))
            Kokkos::realloc(node_values(l), batch_size, shape(l));
        if (node_derivatives(l).extent(0) != batch_size or node_derivatives(l).extent(1) != shape(l))
            Kokkos::realloc(node_derivatives(l), batch_size, shape(l));
''', '''        fit(node_values(l), batch_size, shape(l));
        fit(node_derivatives(l), batch_size, shape(l));
'''))
v('mpoly_loop', ALLK, (PK, '''    for (int i=edges.extent(0)-1; i>=0; --i) {
        const int i0 = edges(i,0);''', '''    int i = static_cast<int>(edges.extent(0));
    while (i-- > 0) {
        const int i0 = edges(i,0);'''))
v('mpoly_dot', ALLK, (PK, '''    return KokkosBlas::dot(node_coefficients, node_values);
''', '''    double f = 0.0;
    auto nc = node_coefficients;
    auto nv = node_values;
    Kokkos::parallel_reduce("dot", nc.size(), KOKKOS_LAMBDA (const int i, double& s) {
        s += nc(i) * nv(i);
    }, f);
    return f;
'''))
v('mpoly_for', ALLK, (PK, '''            double monomial = x(monomials(i,0));
            for (int j=1; j<monomials.extent(1); ++j) {
                if (monomials(i,j) == -1)
                    break;
                monomial *= x(monomials(i,j));
            }
''', '''            double monomial = x(monomials(i,0));
            for (int j=1; j<monomials.extent(1) && monomials(i,j) >= 0; ++j)
                monomial *= x(monomials(i,j));
'''))
v('mace_first_neigh', ALLK, (MK, '''template <typename Precision>
MACEKokkos<Precision>::MACEKokkos(std::string filename)
''', '''static Kokkos::View<int*> exclusive_offsets(int num_nodes, Kokkos::View<const int*> num_neigh)
{
    Kokkos::View<int*> first_neigh("first_neigh", num_nodes);
    Kokkos::parallel_scan("Compute first_neigh",
        num_nodes,
        KOKKOS_LAMBDA (const int i, int& update, const bool final) {
            if (final)
                first_neigh(i) = update;
            update += num_neigh(i);
        });
    Kokkos::fence();
    return first_neigh;
}

template <typename Precision>
MACEKokkos<Precision>::MACEKokkos(std::string filename)
'''), (MK, '''    Kokkos::View<int*> first_neigh("first_neigh", num_nodes);
    Kokkos::parallel_scan("Compute first_neigh",
        num_nodes,
        KOKKOS_LAMBDA (const int i, int& update, const bool final) {
            if (final)
                first_neigh(i) = update;
            update += num_neigh(i);
        });

    // perform the scaling
''', '''    const auto first_neigh = exclusive_offsets(num_nodes, num_neigh);

'''), (MK, '''    Kokkos::View<int*> first_neigh("first_neigh", num_nodes);
    Kokkos::parallel_scan("Compute first_neigh",
        num_nodes,
        KOKKOS_LAMBDA (const int i, int& update, const bool final) {
            if (final)
                first_neigh(i) = update;
            update += num_neigh(i);
        });

    const auto num_channels = this->num_channels;
    const auto num_lm = this->num_lm;
    const auto num_lelm1lm2''', '''    const auto first_neigh = exclusive_offsets(num_nodes, num_neigh);

    const auto num_channels = this->num_channels;
    const auto num_lm = this->num_lm;
    const auto num_lelm1lm2'''))
v('mace_A0_sum', ALLK, (MK, '''            for (int j=0; j<num_neigh(i); ++j) {
                const int ij = first_neigh(i) + j;
                const double Y_ij_lm = Y(ij*num_lm+lm);
                parallel_for(
                    TeamVectorRange(team_member, num_channels),
                    [=] (const int k) {
                        A0(i,lm,k) += R0(ij,l*num_channels+k) * Y_ij_lm;
                    });
            }
''', '''            const int ij_begin = first_neigh(i);
            const int ij_end = ij_begin + num_neigh(i);
            parallel_for(
                TeamVectorRange(team_member, num_channels),
                [=] (const int k) {
                    Precision sum = 0.0;
                    for (int ij=ij_begin; ij<ij_end; ++ij)
                        sum += R0(ij,l*num_channels+k) * Y(ij*num_lm+lm);
                    A0(i,lm,k) = sum;
                });
'''))
v('mace_M0_noatomic', ALLK, (MK, '''                    M0_poly_values(LM)(i,lm,k) = A0(i,lm,k);
                    Kokkos::atomic_add(&M0(i,LM,k), M0_poly_coeff(LM)(node_types(i),lm,k) * M0_poly_values(LM)(i,lm,k));
                });
            team_member.team_barrier();
''', '''                    M0_poly_values(LM)(i,lm,k) = A0(i,lm,k);
                });
            team_member.team_barrier();
            const int type_i = node_types(i);
            Kokkos::parallel_for(
                Kokkos::TeamVectorRange(team_member, num_channels),
                [&] (const int k) {
                    for (int lm=0; lm<num_lm; ++lm)
                        M0(i,LM,k) += M0_poly_coeff(LM)(type_i,lm,k) * M0_poly_values(LM)(i,lm,k);
                });
            team_member.team_barrier();
'''))
v('mace_M0_range3', ALLK, (MK, '''        "MACEKokkos::compute_A0_scaled",
        Kokkos::TeamPolicy<>(num_nodes, Kokkos::AUTO, Kokkos::AUTO),
        KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
            const int i = team_member.league_rank();
            // compute scale factor
            double A0_scale_factor;
            Kokkos::parallel_reduce(
                Kokkos::TeamThreadRange(team_member, num_neigh(i)),
                [=] (const int j, double& lsum) {
                    lsum += A0_spline_values(first_neigh(i)+j,0);
                }, A0_scale_factor);
            A0_scale_factor += 1.0;
            team_member.team_barrier();
            // perform the scaling
            Kokkos::parallel_for(
                Kokkos::TeamThreadRange(team_member, num_lm*num_channels),
                [=] (int lmk) {
                    A0(i,lmk/num_channels,lmk%num_channels) /= A0_scale_factor;
                });
        });
''', '''        "MACEKokkos::compute_A0_scaled",
        Kokkos::RangePolicy<>(0, num_nodes),
        KOKKOS_LAMBDA (const int i) {
            double A0_scale_factor = 1.0;
            for (int j=0; j<num_neigh(i); ++j)
                A0_scale_factor += A0_spline_values(first_neigh(i)+j,0);
            for (int lm=0; lm<num_lm; ++lm)
                for (int k=0; k<num_channels; ++k)
                    A0(i,lm,k) /= A0_scale_factor;
        });
'''))
v('mace_H1_loops', ALLK, (MK, '''            KokkosBatched::TeamGemm<Kokkos::TeamPolicy<>::member_type,
                                    KokkosBatched::Trans::NoTranspose,
                                    KokkosBatched::Trans::NoTranspose,
                                    KokkosBatched::Algo::Gemm::Unblocked>
                ::invoke(team_member, 1.0, M0_il, W_il, 0.0, H1_il);
''', '''            Kokkos::parallel_for(
                Kokkos::TeamThreadRange(team_member, (2*l+1)*static_cast<int>(W_il.extent(1))),
                [&] (const int mk) {
                    const int m = mk / W_il.extent(1);
                    const int k = mk % W_il.extent(1);
                    Precision sum = 0.0;
                    for (int kk=0; kk<W_il.extent(0); ++kk)
                        sum += M0_il(m,kk) * W_il(kk,k);
                    H1_il(m,k) = sum;
                });
'''))
v('mace_A0rev_local', ALLK, (MK, '''                        f_x += t1*x_ij*Y_ij[lm] + t2*Y_grad_ij[lm];
                        f_y += t1*y_ij*Y_ij[lm] + t2*Y_grad_ij[num_lm+lm];
                        f_z += t1*z_ij*Y_ij[lm] + t2*Y_grad_ij[2*num_lm+lm];
''', '''                        const double t1Y = t1*Y_ij[lm];
                        f_x += t1Y*x_ij + t2*Y_grad((3*ij+0)*num_lm+lm);
                        f_y += t1Y*y_ij + t2*Y_grad((3*ij+1)*num_lm+lm);
                        f_z += t1Y*z_ij + t2*Y_grad((3*ij+2)*num_lm+lm);
'''))
v('mace_realloc_exact', ALLK, (MK, '''    if (M0.extent(0) < num_nodes)
        Kokkos::realloc(M0, num_nodes, num_LM, num_channels);
''', '''    if (M0.extent(0) != num_nodes)
        Kokkos::realloc(M0, num_nodes, num_LM, num_channels);
'''), (MK, '''    if (H1.extent(0) < M0.extent(0))
''', '''    if (H1.extent(0) != M0.extent(0))
'''))
v('mace_R0_order', ALLK, (MK, '''    compute_R0(num_nodes, node_types, num_neigh, neigh_types, r);
    compute_R1(num_nodes, node_types, num_neigh, neigh_types, r);
    compute_Y(xyz);

    compute_A0(num_nodes, node_types, num_neigh, neigh_types);
''', '''    compute_Y(xyz);
    compute_R0(num_nodes, node_types, num_neigh, neigh_types, r);
    compute_A0(num_nodes, node_types, num_neigh, neigh_types);
    compute_R1(num_nodes, node_types, num_neigh, neigh_types, r);
'''))
v('mace_shuffle', ALLK, (MK, '''        Y(i) *= 2*std::sqrt(M_PI);
    });
    Kokkos::parallel_for("normalize_Y_grad", 3*num*num_lm, KOKKOS_LAMBDA (int i) {
        Y_grad(i) *= 2*std::sqrt(M_PI);
    });
''', '''        Y(i) *= 2*std::sqrt(M_PI);
        for (int d=0; d<3; ++d)
            Y_grad(3*i+d) *= 2*std::sqrt(M_PI);
    });
'''))
v('mace_Rc_horner', ALLK, (MK, '''                    R0(ij,lk) = c0 + c1*x + c2*xx + c3*xxx;
                    R0_deriv(ij,lk) = c1 + c2*two_x + c3*three_xx;
''', '''                    R0(ij,lk) = ((c3*x + c2)*x + c1)*x + c0;
                    R0_deriv(ij,lk) = (3*c3*x + 2*c2)*x + c1;
'''))
v('mace_Phi_helper', ALLK, (MK, '''                        Phi1r_i_lelm1lm2(k) += R1(ij,lel1l2*num_channels+k) * Y(ij*num_lm+lm1) * H1(neigh_indices(ij),lm2,k);
                    });
            }
            team_member.team_barrier();
''', '''                        const int node_j = neigh_indices(ij);
                        const auto y = Y(ij*num_lm+lm1);
                        Phi1r_i_lelm1lm2(k) += R1(ij,lel1l2*num_channels+k) * y * H1(node_j,lm2,k);
                    });
            }
            team_member.team_barrier();
'''))
