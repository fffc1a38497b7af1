"""Refactorings of the LAMMPS pair style."""
PC, PH = 'pair_symmetrix/pair_symmetrix_mace.cpp', 'pair_symmetrix/pair_symmetrix_mace.h'
CK = ['P16', 'P17']
V = []


def v(name, *edits, ck=CK):
    V.append((name, edits, ck))


DIST = '''      const double dx = atom->x[j][0] - x_i;
      const double dy = atom->x[j][1] - y_i;
      const double dz = atom->x[j][2] - z_i;
      const double r_squared = dx*dx + dy*dy + dz*dz;
'''
COUNT = '''  int num_edges = 0;
  for (int ii=0; ii<list->inum; ++ii) {
    const int i = list->ilist[ii];
    const double x_i = atom->x[i][0];
    const double y_i = atom->x[i][1];
    const double z_i = atom->x[i][2];
    int* jlist = list->firstneigh[i];
    for (int jj=0; jj<list->numneigh[i]; jj++) {
      const int j = (jlist[jj] & NEIGHMASK);
''' + DIST + '''      if (r_squared < r_cut_squared)
        num_edges += 1;
    }
  }
'''
v('pa-count-helper', (PC, COUNT, '  const int num_edges = count_edges(r_cut_squared);\n'),
  (PH, '  virtual void allocate();', '  int count_edges(double) const;\n  virtual void allocate();'),
  (PC, 'void PairSymmetrixMACE::compute_no_domain_decomposition(', '''int PairSymmetrixMACE::count_edges(double r_cut_squared) const
{
  int n = 0;
  for (int ii=0; ii<list->inum; ++ii) {
    const int i = list->ilist[ii];
    const double* xi = atom->x[i];
    const int* jlist = list->firstneigh[i];
    for (int jj=0; jj<list->numneigh[i]; jj++) {
      const double* xj = atom->x[jlist[jj] & NEIGHMASK];
      double r2 = 0.0;
      for (int k=0; k<3; ++k) {
        const double d = xj[k] - xi[k];
        r2 += d*d;
      }
      if (r2 >= r_cut_squared) continue;
      ++n;
    }
  }
  return n;
}

void PairSymmetrixMACE::compute_no_domain_decomposition('''))
FORCES = '''    const int i = node_i[ii];
    for (int jj=0; jj<num_neigh[ii]; ++jj) {
      const int j = neigh_j[ij];
      atom->f[i][0] -= mace->node_forces[3*ij];
      atom->f[i][1] -= mace->node_forces[3*ij+1];
      atom->f[i][2] -= mace->node_forces[3*ij+2];
      atom->f[j][0] += mace->node_forces[3*ij];
      atom->f[j][1] += mace->node_forces[3*ij+1];
      atom->f[j][2] += mace->node_forces[3*ij+2];
      ij += 1;
    }
'''
v('pa-force-loop', (PC, FORCES, '''    double* f_i = atom->f[node_i[ii]];
    for (int jj=0; jj<num_neigh[ii]; ++jj, ++ij) {
      double* f_j = atom->f[neigh_j[ij]];
      for (int k=0; k<3; ++k) {
        const double g = mace->node_forces[3*ij+k];
        f_i[k] -= g;
        f_j[k] += g;
      }
    }
'''))
v('pa-force-alias', (PC, FORCES, '''    const int i = node_i[ii];
    const auto& nf = mace->node_forces;
    double fx = 0.0, fy = 0.0, fz = 0.0;
    for (int jj=0; jj<num_neigh[ii]; ++jj) {
      const int j = neigh_j[ij];
      atom->f[j][0] += nf[3*ij];
      atom->f[j][1] += nf[3*ij+1];
      atom->f[j][2] += nf[3*ij+2];
      fx += nf[3*ij];
      fy += nf[3*ij+1];
      fz += nf[3*ij+2];
      ij += 1;
    }
    atom->f[i][0] -= fx;
    atom->f[i][1] -= fy;
    atom->f[i][2] -= fz;
'''))
v('pa-ilist-local', (PC, '  const double r_cut_squared = mace->r_cut*mace->r_cut;\n', '''  const double r_cut_squared = mace->r_cut*mace->r_cut;
  double** x = atom->x;
  const int* type = atom->type;
  const int* ilist = list->ilist;
  const int* numneigh = list->numneigh;
'''), (PC, 'atom->x[', 'x['), (PC, 'atom->type[', 'type['), (PC, 'list->ilist[', 'ilist['), (PC, 'list->numneigh[', 'numneigh['),
  (PC, 'const double x = xyz[3*ij];', 'const double rx = xyz[3*ij];'), (PC, 'virial[0] += x*f_x', 'virial[0] += rx*f_x'),
  (PC, '0.5*(x*f_y + y*f_x)', '0.5*(rx*f_y + y*f_x)'), (PC, '0.5*(x*f_z + z*f_x)', '0.5*(rx*f_z + z*f_x)'))
v('pa-dist-lambda', (PC, '  const double r_cut_squared = mace->r_cut*mace->r_cut;\n', '''  const double r_cut_squared = mace->r_cut*mace->r_cut;
  auto dist2 = [](double a, double b, double c) { return a*a + b*b + c*c; };
'''), (PC, 'dx*dx + dy*dy + dz*dz', 'dist2(dx, dy, dz)'))
v('pa-count-then-pushback', (PC, '''        neigh_j[ij] = j_local;
        neigh_indices[ij] = ii_from_i[j_local];
        neigh_types[ij] = mace_types[atom->type[j]-1];
        xyz[3*ij] = dx;
        xyz[3*ij+1] = dy;
        xyz[3*ij+2] = dz;
        r[ij] = std::sqrt(r_squared);
        ij += 1;
''', '''        neigh_j.push_back(j_local);
        neigh_indices.push_back(ii_from_i.at(j_local));
        neigh_types.push_back(mace_types[atom->type[j]-1]);
        xyz.push_back(dx);
        xyz.push_back(dy);
        xyz.push_back(dz);
        r.push_back(std::sqrt(r_squared));
        ij += 1;
'''), (PC, '''  neigh_indices.resize(num_edges);
  neigh_types.resize(num_edges);
  xyz.resize(3*num_edges);
  r.resize(num_edges);
  node_i.resize(num_nodes);
  neigh_j.resize(num_edges);

  // update ii_from_i
''', '''  neigh_indices.clear();
  neigh_types.clear();
  xyz.clear();
  r.clear();
  neigh_indices.reserve(num_edges);
  node_i.resize(num_nodes);
  neigh_j.clear();

  // update ii_from_i
'''))
v('pa-energy-accumulate', (PC, '''    for (int ii=0; ii<num_nodes; ++ii)
      eng_vdwl += mace->node_energies[ii];
''', '''    eng_vdwl += std::accumulate(mace->node_energies.begin(), mace->node_energies.end(), 0.0);
'''))
v('pa-energy-range', (PC, '''    for (int ii=0; ii<num_nodes; ++ii)
      eng_vdwl += mace->node_energies[ii];
''', '''    for (const double e : mace->node_energies)
      eng_vdwl += e;
'''))
v('pa-energy-merged', (PC, '''  if (eflag_global) {
    for (int ii=0; ii<num_nodes; ++ii)
      eng_vdwl += mace->node_energies[ii];
  }

  if (eflag_atom) {
    for (int ii=0; ii<num_nodes; ++ii)
      eatom[node_i[ii]] = mace->node_energies[ii];
  }
''', '''  for (int ii=0; ii<num_nodes; ++ii) {
    const double e = mace->node_energies[ii];
    if (eflag_global) eng_vdwl += e;
    if (eflag_atom) eatom[node_i[ii]] = e;
  }
'''))
v('pa-energy-early', (PC, '''      eatom[node_i[ii]] = mace->node_energies[ii];''', '''      eatom[list->ilist[ii]] = mace->node_energies[ii];'''))
VIR = '''        const double x = xyz[3*ij];
        const double y = xyz[3*ij+1];
        const double z = xyz[3*ij+2];
        const double f_x = mace->node_forces[3*ij];
        const double f_y = mace->node_forces[3*ij+1];
        const double f_z = mace->node_forces[3*ij+2];
        virial[0] += x*f_x;
        virial[1] += y*f_y;
        virial[2] += z*f_z;
        virial[3] += 0.5*(x*f_y + y*f_x);
        virial[4] += 0.5*(x*f_z + z*f_x);
        virial[5] += 0.5*(y*f_z + z*f_y);
        ij += 1;
'''
v('pa-virial-ptr', (PC, VIR, '''        const double* d = &xyz[3*ij];
        const double* g = &mace->node_forces[3*ij];
        for (int k=0; k<3; ++k)
          virial[k] += d[k]*g[k];
        virial[3] += (d[0]*g[1] + d[1]*g[0])/2;
        virial[4] += (d[0]*g[2] + d[2]*g[0])/2;
        virial[5] += (d[1]*g[2] + d[2]*g[1])/2;
        ++ij;
'''))
v('pa-virial-flat', (PC, '''    ij = 0;
    for (int ii=0; ii<num_nodes; ++ii) {
      for (int jj=0; jj<num_neigh[ii]; ++jj) {
''' + VIR + '''      }
    }
''', '''    for (int e=0; e<num_edges; ++e) {
''' + VIR.replace('3*ij', '3*e').replace('        ij += 1;\n', '').replace('        ', '      ') + '''    }
'''))
v('pa-virial-helper', (PC, '''    ij = 0;
    for (int ii=0; ii<num_nodes; ++ii) {
      for (int jj=0; jj<num_neigh[ii]; ++jj) {
''' + VIR + '''      }
    }
''', '''    tally_virial(num_nodes);
'''), (PH, '  virtual void allocate();', '  void tally_virial(int num_nodes);\n  virtual void allocate();'),
  (PC, 'void PairSymmetrixMACE::compute_no_domain_decomposition(', '''void PairSymmetrixMACE::tally_virial(int num_nodes)
{
    int ij = 0;
    for (int ii=0; ii<num_nodes; ++ii) {
      for (int jj=0; jj<num_neigh[ii]; ++jj) {
''' + VIR + '''      }
    }
}

void PairSymmetrixMACE::compute_no_domain_decomposition('''))
v('pa-pack-size', (PC, '''  for (int ii=0; ii<n; ++ii) {
    const int i = list[ii];
    for (int k=0; k<mace->num_LM*mace->num_channels; ++k) {
      buf[ii*mace->num_LM*mace->num_channels+k] = H1[i*mace->num_LM*mace->num_channels+k];
    }
  }
  return n*mace->num_LM*mace->num_channels;
''', '''  const int size = mace->num_LM*mace->num_channels;
  for (int ii=0; ii<n; ++ii) {
    const double* from = H1.data() + list[ii]*size;
    std::copy(from, from + size, buf + ii*size);
  }
  return n*size;
'''), (PC, '''  for (int ii=0; ii<n; ++ii) {
    const int i = list[ii];
    for (int k=0; k<mace->num_LM*mace->num_channels; ++k) {
      H1_adj[i*mace->num_LM*mace->num_channels+k] += buf[ii*mace->num_LM*mace->num_channels+k];
    }
  }
''', '''  const int size = mace->num_LM*mace->num_channels;
  int m = 0;
  for (int ii=0; ii<n; ++ii)
    for (int k=0; k<size; ++k)
      H1_adj[list[ii]*size+k] += buf[m++];
'''))
v('pa-pack-m', (PC, '''  for (int i=0; i<n; ++i) {
    for (int k=0; k<mace->num_LM*mace->num_channels; ++k) {
      buf[i*mace->num_LM*mace->num_channels+k] = H1_adj[(first+i)*mace->num_LM*mace->num_channels+k];
    }
  }
  return n*mace->num_LM*mace->num_channels;
''', '''  int m = 0;
  const int last = first + n;
  for (int i=first; i<last; ++i)
    for (int k=0; k<mace->num_LM*mace->num_channels; ++k)
      buf[m++] = H1_adj[i*mace->num_LM*mace->num_channels+k];
  return m;
'''), (PC, '''  for (int i=0; i<n; ++i) {
    for (int k=0; k<mace->num_LM*mace->num_channels; ++k) {
      H1[(first+i)*mace->num_LM*mace->num_channels+k] = buf[i*mace->num_LM*mace->num_channels+k];
    }
  }
''', '''  std::copy(buf, buf + n*mace->num_LM*mace->num_channels, H1.begin() + first*mace->num_LM*mace->num_channels);
'''))
v('pa-coeff-loop', (PC, '''    auto iter1 = std::find(periodic_table.begin(), periodic_table.end(), arg[i]);
    if (iter1 == periodic_table.end())
      error->all(FLERR, "{} does not appear in the periodic table", arg[i]);
    int atomic_number = std::distance(periodic_table.begin(), iter1) + 1;
''', '''    int atomic_number = 0;
    for (int z=0; z<static_cast<int>(periodic_table.size()); ++z)
      if (periodic_table[z] == arg[i]) {
        atomic_number = z + 1;
        break;
      }
    if (atomic_number == 0)
      error->all(FLERR, "{} does not appear in the periodic table", arg[i]);
'''))
v('pa-coeff-clear', (PC, '  mace_types = std::vector<int>();\n', '  mace_types.clear();\n  mace_types.reserve(narg - 3);\n'))
v('pa-coeff-iterdiff', (PC, 'std::distance(mace->atomic_numbers.begin(), iter2)', 'iter2 - mace->atomic_numbers.begin()'),
  (PC, 'std::distance(periodic_table.begin(), iter1) + 1', '1 + (iter1 - periodic_table.begin())'))
v('pa-coeff-msg', (PC, '''    comm_forward = mace->num_LM*mace->num_channels;
    comm_reverse = mace->num_LM*mace->num_channels;
  } else {
    comm_forward = 0;
    comm_reverse = 0;
  }
''', '''    comm_forward = comm_reverse = mace->num_LM*mace->num_channels;
  } else {
    comm_forward = comm_reverse = 0;
  }
'''))
v('pa-settings-mode', (PC, '''  if (mode == "no_domain_decomposition") {
    compute_no_domain_decomposition(eflag, vflag);
  } else if (mode == "mpi_message_passing") {
    compute_mpi_message_passing(eflag, vflag);
  } else if (mode == "no_mpi_message_passing") {
    compute_no_mpi_message_passing(eflag, vflag);
  }
''', '''  if (mode == "mpi_message_passing")
    return compute_mpi_message_passing(eflag, vflag);
  if (mode == "no_mpi_message_passing")
    return compute_no_mpi_message_passing(eflag, vflag);
  if (mode == "no_domain_decomposition")
    compute_no_domain_decomposition(eflag, vflag);
'''))
v('pa-settings-early', (PC, '''  if (narg == 0) {
    mode = (comm->nprocs == 1) ? "no_domain_decomposition" : "mpi_message_passing";
  } else if (narg == 1) {
    mode = std::string(arg[0]);
    if (mode != "no_domain_decomposition" and mode != "mpi_message_passing" and mode != "no_mpi_message_passing")
        error->all(FLERR, "The command \\'pair_style symmetrix/mace {}\\' is invalid", mode);
  } else {
    error->all(FLERR, "Too many pair_style arguments for symmetrix/mace");
  }
''', '''  if (narg > 1)
    error->all(FLERR, "Too many pair_style arguments for symmetrix/mace");

  if (narg == 1) {
    mode = arg[0];
    const bool known = mode == "no_domain_decomposition" || mode == "mpi_message_passing"
                       || mode == "no_mpi_message_passing";
    if (!known)
      error->all(FLERR, "The command \\'pair_style symmetrix/mace {}\\' is invalid", mode);
  } else if (comm->nprocs == 1) {
    mode = "no_domain_decomposition";
  } else {
    mode = "mpi_message_passing";
  }
'''))
v('pa-init-invert', (PC, '''  if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
    neighbor->add_request(this, NeighConst::REQ_FULL);
  } else {
    // enforce the communication cutoff is more than twice the model cutoff
    const double comm_cutoff = comm->get_comm_cutoff();
    if (comm->get_comm_cutoff() < (2*mace->r_cut + neighbor->skin)){
      std::string cutoff_val = std::to_string((2.0 * mace->r_cut) + neighbor->skin);
''', '''  if (mode != "no_mpi_message_passing") {
    neighbor->add_request(this, NeighConst::REQ_FULL);
  } else {
    const double comm_cutoff = comm->get_comm_cutoff();
    const double needed = 2.0*mace->r_cut + neighbor->skin;
    if (comm_cutoff < needed) {
      std::string cutoff_val = std::to_string(needed);
'''))
v('pa-ghost-assign', (PC, '''  is_ghost.resize(atom->nlocal+atom->nghost);
  std::fill(is_ghost.begin(), is_ghost.end(), false);
''', '''  is_ghost.assign(atom->nlocal+atom->nghost, false);
'''), (PC, '''  const int num_ghost_nodes = std::reduce(is_ghost.begin(), is_ghost.end(), 0);
''', '''  const int num_ghost_nodes = std::count(is_ghost.begin(), is_ghost.end(), true);
'''))
v('pa-ghost-push', (PC, '''  const int num_ghost_nodes = std::reduce(is_ghost.begin(), is_ghost.end(), 0);

  // collect indices of ghosts within r_cut of locals
  ghost_indices.resize(num_ghost_nodes);
  int i = 0;
  for (int ii=0; ii<atom->nlocal+atom->nghost; ++ii)
    if (is_ghost[ii])
      ghost_indices[i++] = ii;
''', '''
  // collect indices of ghosts within r_cut of locals
  ghost_indices.clear();
  for (int i=0; i<atom->nlocal+atom->nghost; ++i)
    if (is_ghost[i])
      ghost_indices.push_back(i);
  const int num_ghost_nodes = ghost_indices.size();
'''))
v('pa-num-nodes', (PC, 'num_local_nodes+num_ghost_nodes', 'num_nodes'),
  (PC, '  // collect indices of ghosts within', '  const int num_nodes = num_local_nodes + num_ghost_nodes;\n\n  // collect indices of ghosts within'))
v('pa-edges-accumulate', (PC, '''  int num_local_edges = 0;
  for (int ii=0; ii<num_local_nodes; ++ii)
    num_local_edges += num_neigh[ii];
  int num_ghost_edges = 0;
  for (int ii=num_local_nodes; ii<num_local_nodes+num_ghost_nodes; ++ii)
    num_ghost_edges += num_neigh[ii];
''', '''  const int num_local_edges = std::accumulate(num_neigh.begin(), num_neigh.begin()+num_local_nodes, 0);
  const int num_ghost_edges = std::accumulate(num_neigh.begin()+num_local_nodes, num_neigh.end(), 0);
'''))
v('pa-zero-assign', (PC, '''  mace->node_energies.resize(num_nodes);
  std::fill(mace->node_energies.begin(), mace->node_energies.end(), 0.0);
  mace->node_forces.resize(xyz.size());
  std::fill(mace->node_forces.begin(), mace->node_forces.end(), 0.0);
''', '''  mace->node_energies.assign(num_nodes, 0.0);
  mace->node_forces.assign(xyz.size(), 0.0);
'''))
v('pa-h1-copy', (PC, '''    for (int k=0; k<mace->num_LM*mace->num_channels; ++k) {
      H1[i*mace->num_LM*mace->num_channels+k] = mace->H1[ii*mace->num_LM*mace->num_channels+k];
    }
''', '''    const int size = mace->num_LM*mace->num_channels;
    std::copy_n(mace->H1.begin() + ii*size, size, H1.begin() + i*size);
'''))
v('pa-iimap-insert', (PC, '''    ii_from_i[i] = ii;
''', '''    ii_from_i.insert_or_assign(i, ii);
'''))
v('pa-iimap-find', (PC, 'neigh_indices[ij] = ii_from_i[j_local];', 'neigh_indices[ij] = ii_from_i.find(j_local)->second;'))
VARIANTS = V
