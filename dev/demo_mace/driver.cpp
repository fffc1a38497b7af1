// driver MODEL.json: energies and pair forces of several systems on one object
//  (a) forces are minus the derivative of the summed energies by each pair vector
//  (b) energies are those of a fresh object given the neighbours in reverse order
#include <cmath>
#include <cstdio>
#include <random>
#include "mace.hpp"
struct Sys { int n; std::vector<int> t, nn, idx, nt; std::vector<double> xyz, r; };
static Sys make(int n, int nel, double box, double rc, unsigned seed) {
  std::mt19937 g(seed); std::uniform_real_distribution<double> u(0, box);
  Sys s; s.n = n; std::vector<double> p;
  for (int i=0; i<n; ++i) {
    for (int tries=0; tries<1000; ++tries) {
      double q[3] = {u(g), u(g), u(g)}; bool ok = true;
      for (int j=0; j<i; ++j) { double d=0; for (int k=0;k<3;++k) d += std::pow(q[k]-p[3*j+k],2); ok = ok && d > .6; }
      if (ok || tries==999) { p.insert(p.end(), q, q+3); break; }
    }
    s.t.push_back((int)(g()%nel));
  }
  for (int i=0; i<n; ++i) { int c=0;
    for (int j=0; j<n; ++j) if (j!=i) { double d=0, v[3]; for (int k=0;k<3;++k) { v[k]=p[3*j+k]-p[3*i+k]; d+=v[k]*v[k]; }
      d=std::sqrt(d); if (d<rc) { ++c; s.idx.push_back(j); s.nt.push_back(s.t[j]); s.r.push_back(d); s.xyz.insert(s.xyz.end(), v, v+3); } }
    s.nn.push_back(c); }
  return s;
}
static Sys reversed(const Sys& a) {
  Sys s = a; int o = 0;
  for (int i=0; i<a.n; ++i) { const int c=a.nn[i];
    for (int j=0; j<c; ++j) { int q=o+c-1-j; s.idx[o+j]=a.idx[q]; s.nt[o+j]=a.nt[q]; s.r[o+j]=a.r[q]; for (int k=0;k<3;++k) s.xyz[3*(o+j)+k]=a.xyz[3*q+k]; }
    o += c; }
  return s;
}
static double run(MACE& m, const Sys& s) {
  m.compute_node_energies_forces(s.n, s.t, s.nn, s.idx, s.nt, s.xyz, s.r);
  double e=0; for (int i=0;i<s.n;++i) e += m.node_energies[i]; return e;
}
int main(int argc, char** argv) {
  int bad = 0; MACE m(argv[1]); const int nel = m.atomic_numbers.size();
  for (int c=0; c<7; ++c) {
    static const int N[7] = {3, 5, 1, 4, 2, 5, 3}; static const double B[7] = {2.5, 3, 1, 3.5, 9, 5, 2};
    Sys s = make(N[c], nel, B[c], m.r_cut, 11+c);
    run(m, s); auto E = m.node_energies; auto F = m.node_forces;
    MACE f(argv[1]); Sys rs = reversed(s); run(f, rs);
    for (int i=0; i<s.n; ++i) if (std::fabs(E[i]-f.node_energies[i]) > 1e-8*(1+std::fabs(E[i]))) { ++bad; printf("system %d: energy of node %d is %.10g, expected %.10g\n", c, i, E[i], f.node_energies[i]); }
    MACE g(argv[1]);
    for (size_t q=0; q<s.xyz.size(); ++q) {
      const double dl = 1e-5; double e[2];
      for (int w=0; w<2; ++w) { Sys t = s; t.xyz[q] += w ? -dl : dl; const size_t p=q/3;
        t.r[p] = std::sqrt(t.xyz[3*p]*t.xyz[3*p]+t.xyz[3*p+1]*t.xyz[3*p+1]+t.xyz[3*p+2]*t.xyz[3*p+2]); e[w] = run(g, t); }
      const double want = -(e[0]-e[1])/(2*dl);
      if (std::fabs(want-F[q]) > 1e-4*(1+std::fabs(want))) { ++bad; if (bad<20) printf("system %d: pair force %zu is %.8g, expected %.8g\n", c, q, F[q], want); }
    }
  }
  printf("%d mismatches\n", bad); return bad ? 1 : 0;
}
