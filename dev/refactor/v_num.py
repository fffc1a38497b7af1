"""Refactorings of the numeric library classes."""
S = 'libsymmetrix/source/'
CS, CSH = S + 'cubic_spline.cpp', S + 'cubic_spline.hpp'
SS, SSH = S + 'cubic_spline_set.cpp', S + 'cubic_spline_set.hpp'
ZB, ZBH = S + 'zbl.cpp', S + 'zbl.hpp'
ML, MLH = S + 'multilayer_perceptron.cpp', S + 'multilayer_perceptron.hpp'
MP, MPH = S + 'multivariate_polynomial.cpp', S + 'multivariate_polynomial.hpp'
TO, TOH = S + 'tools.cpp', S + 'tools.hpp'
SPL = ['P01', 'P02', 'P07', 'P12']
V = []


def v(name, checks, *edits):
    V.append((name, edits, checks))


BODY = '''    const int i = static_cast<int>(r / h);
    // TODO: something better with this bounds checking
    if (i<0 or i>=c.size()/4)
        throw std::invalid_argument("Out of bounds in CubicSpline::%s.");
    const double x = r - h*i;
    const double xx = x*x;
    const double xxx = xx*x;
    const int i4 = 4*i;
    const double c0 = c[i4], c1 = c[i4+1], c2=c[i4+2], c3=c[i4+3];
'''
v('cs-helper', SPL,
  (CSH, 'private:\n', 'private:\n\nint locate(double r, const char* where) const;\nstatic double horner(const double* a, double x);\n'),
  (CS, BODY % 'evaluate' + '    return c0 + c1*x + c2*xx + c3*xxx;\n', '    const int i = locate(r, "CubicSpline::evaluate");\n    return horner(&c[4*i], r - h*i);\n'),
  (CS, 'double CubicSpline::evaluate(double r)', '''int CubicSpline::locate(double r, const char* where) const
{
    const int i = static_cast<int>(r / h);
    const bool inside = i >= 0 && 4*i < static_cast<int>(c.size());
    if (!inside)
        throw std::invalid_argument(std::string("Out of bounds in ") + where + ".");
    return i;
}

double CubicSpline::horner(const double* a, double x)
{
    return a[0] + x*(a[1] + x*(a[2] + x*a[3]));
}

double CubicSpline::evaluate(double r)'''),
  (CS, '#include <vector>', '#include <string>\n#include <vector>'))
v('cs-deriv-delegates', SPL,
  (CS, BODY % 'evaluate_deriv' + '    return {c0 + c1*x + c2*xx + c3*xxx, (c1 + 2*c2*x + 3*c3*xx) / r};\n',
   '    auto result = evaluate_deriv(r);\n    std::get<1>(result) /= r;\n    return result;\n'))
v('cs-deriv-bind', SPL,
  (CS, BODY % 'evaluate_deriv' + '    return {c0 + c1*x + c2*xx + c3*xxx, (c1 + 2*c2*x + 3*c3*xx) / r};\n',
   '    const auto [f, df] = evaluate_deriv(r);\n    return std::make_tuple(f, df / r);\n'))
v('cs-coeffs-local', SPL,
  (CS, '''    auto c = std::vector<double>(4*(nodal_values.size()-1), 0.0);
    for (int i=0; i<nodal_values.size()-1; ++i) {
        c[4*i] = nodal_values[i];
        c[4*i+1] = nodal_derivs[i];
        c[4*i+2] = (-3*c[4*i] -2*h*c[4*i+1] + 3*nodal_values[i+1] - h*nodal_derivs[i+1]) / (h*h);
        c[4*i+3] = (2*c[4*i] + h*c[4*i+1] - 2*nodal_values[i+1] + h*nodal_derivs[i+1]) / (h*h*h);
    }
    return c;''', '''    const size_t num_intervals = nodal_values.size() - 1;
    std::vector<double> coeffs;
    coeffs.reserve(4*num_intervals);
    for (size_t i=0; i<num_intervals; i++) {
        const double f0 = nodal_values[i], f1 = nodal_values[i+1];
        const double d0 = nodal_derivs[i], d1 = nodal_derivs[i+1];
        const double slope = (f1 - f0)/h;
        coeffs.push_back(f0);
        coeffs.push_back(d0);
        coeffs.push_back((3*slope - 2*d0 - d1)/h);
        coeffs.push_back((d0 + d1 - 2*slope)/(h*h));
    }
    return coeffs;'''))
v('cs-rename', SPL,
  (CSH, 'std::vector<double> c;', 'std::vector<double> coeff_;'), (CSH, 'double h;\n', 'double step_;\n'),
  (CS, ': h(h),\n      c(gen', ': step_(h),\n      coeff_(gen'), (CS, 'r / h)', 'r / step_)'), (CS, 'r - h*i', 'r - step_*i'),
  (CS, 'i>=c.size()/4', 'i>=coeff_.size()/4'), (CS, 'c0 = c[i4], c1 = c[i4+1], c2=c[i4+2], c3=c[i4+3]', 'c0 = coeff_[i4], c1 = coeff_[i4+1], c2=coeff_[i4+2], c3=coeff_[i4+3]'))
v('cs-array-struct', SPL,
  (CSH, 'std::vector<double> c;', 'struct Cubic { double a0, a1, a2, a3; };\nstd::vector<Cubic> c;'),
  (CSH, '    -> std::vector<double>;', '    -> std::vector<Cubic>;'),
  (CS, '    -> std::vector<double>\n', '    -> std::vector<Cubic>\n'),
  (CS, 'i>=c.size()/4', 'i>=c.size()'),
  (CS, '''    const int i4 = 4*i;
    const double c0 = c[i4], c1 = c[i4+1], c2=c[i4+2], c3=c[i4+3];''', '''    const auto& [c0, c1, c2, c3] = c[i];'''),
  (CS, '''    auto c = std::vector<double>(4*(nodal_values.size()-1), 0.0);
    for (int i=0; i<nodal_values.size()-1; ++i) {
        c[4*i] = nodal_values[i];
        c[4*i+1] = nodal_derivs[i];
        c[4*i+2] = (-3*c[4*i] -2*h*c[4*i+1] + 3*nodal_values[i+1] - h*nodal_derivs[i+1]) / (h*h);
        c[4*i+3] = (2*c[4*i] + h*c[4*i+1] - 2*nodal_values[i+1] + h*nodal_derivs[i+1]) / (h*h*h);
    }''', '''    auto c = std::vector<Cubic>(nodal_values.size()-1);
    for (int i=0; i<nodal_values.size()-1; ++i) {
        auto& p = c[i];
        p.a0 = nodal_values[i];
        p.a1 = nodal_derivs[i];
        p.a2 = (-3*p.a0 -2*h*p.a1 + 3*nodal_values[i+1] - h*nodal_derivs[i+1]) / (h*h);
        p.a3 = (2*p.a0 + h*p.a1 - 2*nodal_values[i+1] + h*nodal_derivs[i+1]) / (h*h*h);
    }'''))
LOOPS = '''    double* c_i = c.data() + 4*i*num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] = c_i[j];
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += c_i[j]*x;
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += c_i[j]*xx;
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += c_i[j]*xxx;
'''
v('css-merged', SPL, (SS, LOOPS, '''    const double* c0 = &c[4*i*num_splines];
    const double* c1 = c0 + num_splines;
    const double* c2 = c1 + num_splines;
    const double* c3 = c2 + num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] = c0[j] + x*(c1[j] + x*(c2[j] + x*c3[j]));
'''))
v('css-powers', SPL, (SS, LOOPS, '''    const double powers[4] = {1.0, x, xx, xxx};
    std::fill(values.begin(), values.begin()+num_splines, 0.0);
    for (int k=0; k<4; ++k) {
        const double* c_k = c.data() + (4*i+k)*num_splines;
        for (int j=0; j<num_splines; ++j)
            values[j] += c_k[j]*powers[k];
    }
'''), (SS, '#include <vector>', '#include <vector>\n#include <algorithm>'))
v('css-copy-transform', SPL, (SS, LOOPS, '''    const auto begin = c.begin() + 4*i*num_splines;
    std::copy(begin, begin + num_splines, values.begin());
    double power = 1.0;
    for (int k=1; k<4; ++k) {
        power *= x;
        for (int j=0; j<num_splines; ++j)
            values[j] += c[(4*i+k)*num_splines + j]*power;
    }
'''), (SS, '#include <vector>', '#include <vector>\n#include <algorithm>'))
v('css-evaluate-first', SPL, (SS, '''    // compute values
    double* c_i = c.data() + 4*i*num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] = c_i[j];
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += x*c_i[j];
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += xx*c_i[j];
    c_i += num_splines;
    for (int j=0; j<num_splines; ++j)
        values[j] += xxx*c_i[j];
    // compute derivs
    c_i = c.data()''', '''    evaluate(r, values);
    // compute derivs
    double* c_i = c.data()'''), (SS, '    const double xxx = xx*x;\n    const double two_x', '    const double two_x'))
v('css-guard-double', SPL, (SS, '''    const int i = static_cast<int>(r / h);
    if (i<0 or i>=num_nodes-1)''', '''    const int i = int(r / h);
    const int last = num_nodes - 2;
    if (!(i >= 0 && i <= last))'''))
v('css-ctor-rows', SPL, (SS, '''    for (int i=0; i<num_nodes-1; ++i) {
        for (int j=0; j<num_splines; ++j) {
            c[(4*i)*num_splines+j] = nodal_values[j][i];
            c[(4*i+1)*num_splines+j] = nodal_derivs[j][i];
            c[(4*i+2)*num_splines+j] = (-3*nodal_values[j][i] -2*h*nodal_derivs[j][i]
                                        + 3*nodal_values[j][i+1] - h*nodal_derivs[j][i+1]) / (h*h);
            c[(4*i+3)*num_splines+j] = (2*nodal_values[j][i] + h*nodal_derivs[j][i]
                                        - 2*nodal_values[j][i+1] + h*nodal_derivs[j][i+1]) / (h*h*h);
        }
    }''', '''    for (int j=0; j<num_splines; ++j) {
        const auto& f = nodal_values[j];
        const auto& d = nodal_derivs[j];
        for (int i=0; i<num_nodes-1; ++i) {
            auto at = [&](int k) -> double& { return c[(4*i+k)*num_splines+j]; };
            at(0) = f[i];
            at(1) = d[i];
            at(2) = (3*(f[i+1]-f[i]) - h*(2*d[i]+d[i+1])) / (h*h);
            at(3) = (2*(f[i]-f[i+1]) + h*(d[i]+d[i+1])) / (h*h*h);
        }
    }'''))
# ---- ZBL
ZC = ['P08', 'P07', 'P12']
v('zbl-helper', ZC,
  (ZBH, 'private:\n', 'private:\n\ndouble screening_length(int Z_u, int Z_v) const;\n'),
  (ZB, '    double a = a_prefactor * 0.529 / (std::pow(Z_u_f, a_exp) + std::pow(Z_v_f, a_exp));\n', '    const double a = screening_length(Z_u, Z_v);\n'),
  (ZB, 'double ZBL::compute(const', '''double ZBL::screening_length(int Z_u, int Z_v) const
{
    const double denominator = std::pow(double(Z_u), a_exp) + std::pow(double(Z_v), a_exp);
    return 0.529 * a_prefactor / denominator;
}

double ZBL::compute(const'''))
v('zbl-exps-array', ZC,
  (ZB, '''    double phi = c[0] * std::exp(c_exps_0 * r_over_a) +
                 c[1] * std::exp(c_exps_1 * r_over_a) +
                 c[2] * std::exp(c_exps_2 * r_over_a) +
                 c[3] * std::exp(c_exps_3 * r_over_a);
''', '''    const double exponents[] = {c_exps_0, c_exps_1, c_exps_2, c_exps_3};
    double phi = 0.0;
    for (int k=0; k<4; ++k)
        phi += c[k] * std::exp(exponents[k] * r_over_a);
'''),
  (ZB, '''    double e_0 = c[0] * exp(c_exps_0 * r_over_a);
    double e_1 = c[1] * exp(c_exps_1 * r_over_a);
    double e_2 = c[2] * exp(c_exps_2 * r_over_a);
    double e_3 = c[3] * exp(c_exps_3 * r_over_a);

    double phi = e_0 + e_1 + e_2 + e_3;
    double d_phi__d_r = c_exps_0 * e_0 + c_exps_1 * e_1 + c_exps_2 * e_2 + c_exps_3 * e_3;
    d_phi__d_r /= a;
''', '''    constexpr std::array<double,4> exponents = {c_exps_0, c_exps_1, c_exps_2, c_exps_3};
    double phi = 0.0, d_phi__d_r = 0.0;
    for (size_t k=0; k<exponents.size(); ++k) {
        const double e_k = c[k] * std::exp(exponents[k] * r_over_a);
        phi += e_k;
        d_phi__d_r += exponents[k] * e_k / a;
    }
'''), (ZB, '#include <cmath>', '#include <array>\n#include <cmath>'))
v('zbl-envelope', ZC,
  (ZB, '''    if (r >= r_max) {
        return 0.0;
    }
    double r_over_r_max = r / r_max;
    double v = (1.0 - ((p + 1.0) * (p + 2.0) / 2.0) * std::pow(r_over_r_max, p)
                    + p * (p + 2.0) * std::pow(r_over_r_max, p + 1)
                    - (p * (p + 1.0) / 2.0) * std::pow(r_over_r_max, p + 2));
    return v;
''', '''    double v = 0.0;
    if (r < r_max) {
        const double x = r / r_max;
        const double xp = std::pow(x, p);
        v = 1.0 - 0.5*(p+1.0)*(p+2.0)*xp + p*(p+2.0)*xp*x - 0.5*p*(p+1.0)*xp*x*x;
    }
    return v;
'''),
  (ZB, '''    double v = (- ((p + 1.0) * (p + 2.0) / 2.0) * p * std::pow(r_over_r_max, p - 1)
                + p * (p + 2.0) * (p + 1.0) * std::pow(r_over_r_max, p)
                - (p * (p + 1.0) / 2.0) * (p + 2.0) * std::pow(r_over_r_max, p + 1));
    v /= r_max;
    return v;''', '''    const double q = 1.0 - r_over_r_max;
    return -0.5*p*(p+1.0)*(p+2.0)*std::pow(r_over_r_max, p-1)*q*q/r_max;'''))
v('zbl-early-out', ZC,
  (ZB, '''    const double cov_rad_u = covalent_radii[Z_u];
    const double cov_rad_v = covalent_radii[Z_v];
''', '''    const double cov_rad_u = covalent_radii[Z_u];
    const double cov_rad_v = covalent_radii[Z_v];
    if (r >= cov_rad_u + cov_rad_v)
        return 0.0;
'''))
v('zbl-loop', ZC,
  (ZB, '''            node_forces[3*ij]   -= xyz[3*ij]   / r[ij] * g;
            node_forces[3*ij+1] -= xyz[3*ij+1] / r[ij] * g;
            node_forces[3*ij+2] -= xyz[3*ij+2] / r[ij] * g;
            ij += 1;
''', '''            const double g_over_r = g / r[ij];
            for (int k=0; k<3; ++k)
                node_forces[3*ij+k] -= g_over_r * xyz[3*ij+k];
            ++ij;
'''))
v('zbl-loop-firsts', ZC,
  (ZB, '''    int ij = 0;
    for (int i=0; i<num_nodes; ++i) {
        const int type_i = node_types[i];
        const int Z_i = atomic_numbers[type_i];
        for (int j=0; j<num_neigh[i]; ++j) {
            const int type_j''', '''    int first = 0;
    for (int i=0; i<num_nodes; first += num_neigh[i], ++i) {
        const int type_i = node_types[i];
        const int Z_i = atomic_numbers[type_i];
        for (int ij=first; ij<first+num_neigh[i]; ++ij) {
            const int type_j'''),
  (ZB, '''            ij += 1;
''', ''))
v('zbl-energy-acc', ZC,
  (ZB, '''            node_energies[i] += f;
''', '''            energy_i += f;
'''), (ZB, '''        for (int j=0; j<num_neigh[i]; ++j) {
''', '''        double energy_i = 0.0;
        for (int j=0; j<num_neigh[i]; ++j) {
'''), (ZB, '''            ij += 1;
        }
''', '''            ij += 1;
        }
        node_energies[i] += energy_i;
'''))
# ---- MLP
MC = ['P03', 'P04', 'P07', 'P12']
ACT = '''        for (int i=0; i<shape[l+1]; ++i) {
            const double x = node_values[l+1][i];
            node_values[l+1][i] = activation_scale_factor*x/(1.0+std::exp(-x));
        }
'''
v('mlp-act-helper', MC, (ML, ACT, '''        for (auto& x : node_values[l+1])
            x = activation(x);
'''), (ML, '''        for (int i=0; i<node_values[l+1].size(); ++i) {
            const double x = node_values[l+1][i];
            node_values[l+1][i] = activation_scale_factor*x/(1.0+std::exp(-x));
        }
''', '''        std::transform(node_values[l+1].begin(), node_values[l+1].end(), node_values[l+1].begin(),
                       [this](double x) { return activation(x); });
'''), (MLH, 'private:\n', 'private:\n\ninline double activation(double x) const { return activation_scale_factor*x/(1.0+std::exp(-x)); }\n'),
  (MLH, '#include <vector>', '#include <cmath>\n#include <algorithm>\n#include <vector>'))
v('mlp-eval-from-batch', MC, (ML, '''    // TODO: Check/sanitize input
    // Reshape node arrays and send input to nodes
    for (int i=0; i<shape.size(); ++i) {
        node_values[i].resize(shape[i]);
    }
    std::copy(input.begin(), input.end(), node_values[0].begin());
    // Evaluate layers
''', '''    return evaluate_batch(input, 1);
    // Evaluate layers
'''))
v('mlp-loops-for-gemv', MC, (ML, '''        cblas_dgemv(
            CblasRowMajor,            // const CBLAS_LAYOUT Layout
            CblasNoTrans,             // const CBLAS_TRANSPOSE trans
            shape[l+1],               // const MKL_INT m
            shape[l],                 // const MKL_INT n
            1.0,                      // const double alpha
            weights[l].data(),        // const double *a
            shape[l],                 // const MKL_INT lda
            node_values[l].data(),    // const double *x
            1,                        // const MKL_INT incx
            0.0,                      // const double beta
            node_values[l+1].data(),  // double *y
            1);                       // const MKL_INT incy
''', '''        for (int i=0; i<shape[l+1]; ++i) {
            double sum = 0.0;
            for (int j=0; j<shape[l]; ++j)
                sum += weights[l][i*shape[l]+j]*node_values[l][j];
            node_values[l+1][i] = sum;
        }
'''))
v('mlp-linear-helper', MC, (ML, '''        cblas_dgemm(
            CblasRowMajor,            // const CBLAS_LAYOUT Layout
            CblasNoTrans,             // const CBLAS_TRANSPOSE transa
            CblasTrans,               // const CBLAS_TRANSPOSE transb
            batch_size,               // const MKL_INT m
            shape[l+1],               // const MKL_INT n
            shape[l],                 // const MKL_INT k
            1.0,                      // const double alpha
            node_values[l].data(),    // const double *a
            shape[l],                 // const MKL_INT lda
            weights[l].data(),        // const double *b
            shape[l],                 // const MKL_INT ldb
            0.0,                      // const double beta
            node_values[l+1].data(),  // double *c
            shape[l+1]);              // const MKL_INT ldc
''', '        linear(l, batch_size);\n'), (ML, '''    cblas_dgemm(
        CblasRowMajor,                 // const CBLAS_LAYOUT Layout
        CblasNoTrans,                  // const CBLAS_TRANSPOSE transa
        CblasTrans,                    // const CBLAS_TRANSPOSE transb
        batch_size,                    // const MKL_INT m
        shape.end()[-1],               // const MKL_INT n
        shape.end()[-2],               // const MKL_INT k
        1.0,                           // const double alpha
        node_values.end()[-2].data(),  // const double *a
        shape.end()[-2],               // const MKL_INT lda
        weights.end()[-1].data(),      // const double *b
        shape.end()[-2],               // const MKL_INT ldb
        0.0,                           // const double beta
        node_values.end()[-1].data(),  // double *c
        shape.end()[-1]);              // const MKL_INT ldc
''', '    linear(shape.size()-2, batch_size);\n'), (MLH, 'private:\n', 'private:\n\nvoid linear(int l, int batch_size);\n'),
  (ML, 'auto MultilayerPerceptron::evaluate(', '''void MultilayerPerceptron::linear(int l, int batch_size)
{
    const int n_in = shape[l], n_out = shape[l+1];
    cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, batch_size, n_out, n_in,
                1.0, node_values[l].data(), n_in, weights[l].data(), n_in,
                0.0, node_values[l+1].data(), n_out);
}

auto MultilayerPerceptron::evaluate('''))
v('mlp-sigmoid-deriv', MC, (ML, '''            node_activation_derivs[l+1][i] = activation_scale_factor*sigmoid
                + activation_scale_factor*x*sigmoid*(1-sigmoid);
''', '''            node_activation_derivs[l+1][i] = activation_scale_factor*sigmoid*(1 + x*(1-sigmoid));
'''))
v('mlp-backward-fused', MC, (ML, '''        for (int i=0; i<shape.back(); ++i) {
            for (int j=0; j<shape[l+1]; ++j) {
                node_derivs[l+1][i*shape[l+1]+j] *= node_activation_derivs[l+1][j];
            }
        }
''', '''        for (int ij=0; ij<node_derivs[l+1].size(); ++ij)
            node_derivs[l+1][ij] *= node_activation_derivs[l+1][ij % shape[l+1]];
'''))
v('mlp-local-refs', MC, (ML, '''        for (int i=0; i<batch_size; ++i) {
            for (int j=0; j<shape.back(); ++j) {
                for (int p=0; p<shape[l+1]; ++p) {
                    node_derivs[l+1][i*shape.back()*shape[l+1]+j*shape[l+1]+p] *= node_activation_derivs[l+1][i*shape[l+1]+p];
                }
            }
        }
''', '''        const int width = shape[l+1];
        auto* d = node_derivs[l+1].data();
        for (int i=0; i<batch_size; ++i) {
            const auto* act = node_activation_derivs[l+1].data() + i*width;
            for (int j=0; j<shape.back(); ++j, d += width)
                for (int p=0; p<width; ++p)
                    d[p] *= act[p];
        }
'''))
v('mlp-while-layers', MC, (ML, '''    for (int l=shape.size()-3; l>=0; --l) {
''', '''    for (int k=0; k<(int)shape.size()-2; ++k) {
        const int l = (int)shape.size()-3-k;
'''))
v('mlp-reserve', MC, (ML, '''    for (int i=0; i<shape.size(); ++i) {
        node_values.push_back(std::vector<double>(shape[i]));
        node_derivs.push_back(std::vector<double>(shape.back()*shape[i]));
        node_activation_derivs.push_back(std::vector<double>(shape[i]));
    }
''', '''    const int num_layers = shape.size();
    node_values.resize(num_layers);
    node_derivs.resize(num_layers);
    node_activation_derivs.resize(num_layers);
'''))
v('mlp-locals', MC, (ML, '''    for (int i=0; i<shape.size(); ++i) {
        node_values[i].resize(shape[i]);
    }
    std::copy(input.begin(), input.end(), node_values[0].begin());
''', '''    std::size_t layer = 0;
    for (const int width : shape)
        node_values[layer++].resize(width);
    node_values.front().assign(input.begin(), input.end());
'''))
# ---- polynomial
PC = ['P05', 'P06', 'P07', 'P12']
v('mp-rename', PC,
  (MP, 'edges', 'products'), (MPH, 'edges', 'products'), (MP, 'node_coefficients', 'node_weights'), (MPH, 'node_coefficients', 'node_weights'),
  (MP, 'nodes', 'graph_nodes'), (MPH, 'nodes', 'graph_nodes'))
v('mp-dot-loop', PC, (MP, '''    return cblas_ddot(node_coefficients.size(),
                      node_coefficients.data(), 1,
                      node_values.data(), 1);''', '''    double f = 0.0;
    for (size_t i=0; i<nodes.size(); ++i)
        f += node_coefficients[i]*node_values[i];
    return f;'''))
v('mp-inner-product', PC, (MP, '''    return cblas_ddot(node_coefficients.size(),
                      node_coefficients.data(), 1,
                      node_values.data(), 1);''', '''    return std::inner_product(node_coefficients.begin(), node_coefficients.end(), node_values.begin(), 0.0);'''), (MP, '#include <map>', '#include <map>\n#include <numeric>'))
v('mp-adj-assign', PC, (MP, '''    node_adjoints.resize(nodes.size());
    cblas_dcopy(node_coefficients.size(),
                node_coefficients.data(), 1,
                node_adjoints.data(), 1);
''', '''    node_adjoints = node_coefficients;
'''), (MP, '''    std::vector<double> g(num_variables, 0.0);
    for (int i=0; i<num_variables; ++i)
        g[i] = node_adjoints[i];
    return g;''', '''    return std::vector<double>(node_adjoints.begin(), node_adjoints.begin() + num_variables);'''))
v('mp-fwd-copy', PC, (MP, '''    for (int i=0; i<num_variables; ++i)
        node_values[i] = x[i];
''', '''    std::copy_n(x.begin(), num_variables, node_values.begin());
'''), (MP, '''    for (int i=0; i<edges.size(); ++i) {
        const auto [i0, i1] = edges[i];
        node_values[num_variables+i] = node_values[i0] * node_values[i1];
    }
''', '''    auto out = node_values.begin() + num_variables;
    for (const auto& [i0, i1] : edges)
        *out++ = node_values[i0] * node_values[i1];
'''))
v('mp-gradient-reuse', PC, (MP, '''    initialize_forward_pass(x);
    forward_pass();
    auto f = cblas_ddot(node_coefficients.size(),
                        node_coefficients.data(), 1,
                        node_values.data(), 1);
''', '''    const double f = evaluate(x);
'''), (MP, '''    double f = 0.0;
    for (int i=0; i<coefficients.size(); ++i) {
        double monomial = x[monomials[i][0]];
        for (int j=1; j<monomials[i].size(); ++j) {
            monomial *= x[monomials[i][j]];
        }
        f += coefficients[i] * monomial;
    }
    auto g''', '''    const double f = evaluate_simple(x);
    auto g'''))
v('mp-simple-rangefor', PC, (MP, '''    double f = 0.0;
    for (int i=0; i<coefficients.size(); ++i) {
        double monomial = x[monomials[i][0]];
        for (int j=1; j<monomials[i].size(); ++j) {
            monomial *= x[monomials[i][j]];
        }
        f += coefficients[i] * monomial;
    }
    return f;''', '''    double f = 0.0;
    for (std::size_t i=0; i<coefficients.size(); ++i) {
        double monomial = 1.0;
        for (const int v : monomials[i])
            monomial *= x[v];
        f += coefficients[i] * monomial;
    }
    return f;'''))
v('mp-index-map', PC, (MP, '''        const int i0 = std::distance(
            nodes.begin(),
            std::find(nodes.begin(), nodes.end(), factors[0]));
        const int i1 = std::distance(
            nodes.begin(),
            std::find(nodes.begin(), nodes.end(), factors[1]));
        edges.push_back({i0, i1});''', '''        auto index_of = [this](const std::vector<int>& n) {
            return static_cast<int>(std::find(nodes.begin(), nodes.end(), n) - nodes.begin());
        };
        edges.push_back({index_of(factors[0]), index_of(factors[1])});'''), (MP, '''    int j = 0;
    for (int i=0; i<coefficients.size(); ++i) {
        while (monomials[i] != nodes[j]) {
            j += 1;
        }
        node_coefficients[j] = coefficients[i];
    }
''', '''    for (int i=0; i<coefficients.size(); ++i) {
        const auto it = std::find(nodes.begin(), nodes.end(), monomials[i]);
        node_coefficients[it - nodes.begin()] = coefficients[i];
    }
'''))
v('mp-batch-ptrs', PC, (MP, '''        for (int j=0; j<batch_size; ++j)
            node_adj_0[j] += node_adj[j] * node_val_1[j];
        for (int j=0; j<batch_size; ++j)
            node_adj_1[j] += node_adj[j] * node_val_0[j];
''', '''        for (int j=0; j<batch_size; ++j) {
            const double a = node_adj[j];
            node_adj_0[j] += a * node_val_1[j];
            node_adj_1[j] += a * node_val_0[j];
        }
'''))
v('mp-store-order', PC, (MP, '''    auto lex_less = [](std::vector<int> v1, std::vector<int> v2) {
        if (v1.size() < v2.size()) {
            return true;
        } else if (v1.size() > v2.size()) {
            return false;
        } else {
            return v1 < v2;
        }
    };''', '''    auto lex_less = [](const std::vector<int>& v1, const std::vector<int>& v2) {
        return v1.size() != v2.size() ? v1.size() < v2.size() : v1 < v2;
    };'''))
# ---- tools
TC = ['P09']
v('to-binomial', TC, (TO, '''        return _binomial_coefficient(n-1,k-1) + _binomial_coefficient(n-1,k);
''', '''        long long result = 1;
        for (int i=1; i<=k; ++i)
            result = result*(n-k+i)/i;
        return static_cast<int>(result);
'''))
v('to-sum', TC, (TO, 'return std::reduce(v.begin(), v.end());', 'return std::accumulate(v.begin(), v.end(), 0);'))
v('to-sum-loop', TC, (TO, 'return std::reduce(v.begin(), v.end());', 'int total = 0;\n    for (int x : v) total += x;\n    return total;'))
v('to-partitions', TC, (TO, '''        auto prev_partitions = partitions;

        partitions = std::vector<std::vector<std::vector<int>>>();
        for (auto prev_partition : prev_partitions) {

            // new partition in form of {prev_partition, {v[i]}}
            partitions.push_back(prev_partition);
            partitions[partitions.size()-1].push_back({{ {v[i]} }});
''', '''        const auto prev_partitions = std::move(partitions);
        partitions.clear();
        for (const auto& prev_partition : prev_partitions) {

            // new partition in form of {prev_partition, {v[i]}}
            auto extended = prev_partition;
            extended.push_back({v[i]});
            partitions.push_back(std::move(extended));
'''))
v('to-perm', TC, (TO, '''    auto v = std::vector<int>(size);
    for (int i=0; i<size; ++i)
        v[i] = i;
''', '''    std::vector<int> v(size);
    std::iota(v.begin(), v.end(), 0);
'''), (TO, '''    std::vector<std::vector<int>> permutations = {v};
    while (std::next_permutation(v.begin(), v.end()))
        permutations.push_back(v);
''', '''    std::vector<std::vector<int>> permutations;
    do {
        permutations.push_back(v);
    } while (std::next_permutation(v.begin(), v.end()));
'''))
v('to-comb', TC, (TO, '''    for (int i=0; i<set.size(); ++i)
        for (int j=i+1; j<set.size(); ++j)
            combinations.push_back({set[i], set[j]});
''', '''    for (auto a = set.begin(); a != set.end(); ++a)
        for (auto b = std::next(a); b != set.end(); ++b)
            combinations.push_back({*a, *b});
'''), (TO, '''    auto inputs = std::vector<std::vector<int>>();
    for (int i=0; i<repeat; ++i)
        inputs.push_back(input);
    return _product(inputs);''', '''    return _product(std::vector<std::vector<int>>(repeat, input));'''))
v('to-two-part', TC + ['P05'], (TO, '''    std::erase_if(partitions, [](std::vector<std::vector<int>> p) { return p.size() == 1; });
''', '''    partitions.erase(
        std::remove_if(partitions.begin(), partitions.end(),
                       [](const auto& p) { return p.size() == 1; }),
        partitions.end());
'''))
v('to-two-part-filter', TC + ['P05'], (TO, '''    std::erase_if(partitions, [](std::vector<std::vector<int>> p) { return p.size() == 1; });
''', '''    std::vector<std::vector<std::vector<int>>> kept;
    for (const auto& p : partitions)
        if (p.size() != 1)
            kept.push_back(p);
    partitions = kept;
'''))
VARIANTS = V
