// Declaration-only stand-ins for the LAMMPS interfaces that pair_symmetrix uses
// (LAMMPS is not installed here).  Only names and types matter to the analysis.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define FLERR __FILE__, __LINE__
#define NEIGHMASK 0x1FFFFFFF
#define SBBITS 30
namespace LAMMPS_NS {
typedef int tagint;
typedef int64_t bigint;
class LAMMPS;
class Pair;
class NeighList {
 public:
  int inum, gnum;
  int *ilist, *numneigh;
  int **firstneigh;
};
class Atom {
 public:
  enum { ATOMIC = 0, MOLECULAR = 1, TEMPLATE = 2 };
  enum { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
  bigint natoms;
  int nlocal, nghost, nmax, ntypes, map_user, map_style, tag_enable;
  int *type, *mask;
  tagint *tag;
  double **x, **v, **f;
  double *q;
  int map(tagint);
};
class Comm {
 public:
  int me, nprocs;
  int ghost_velocity;
  double cutghostuser;
  double get_comm_cutoff();
  void modify_params(int, char **);
  void forward_comm(Pair *);
  void reverse_comm(Pair *);
};
class Domain { public: int dimension, triclinic, xperiodic, yperiodic, zperiodic, periodicity[3]; double boxlo[3], boxhi[3], prd[3]; };
class Error {
 public:
  template <typename... A> [[noreturn]] void all(const std::string &, int, const std::string &, A &&...);
  template <typename... A> [[noreturn]] void one(const std::string &, int, const std::string &, A &&...);
  template <typename... A> void warning(const std::string &, int, const std::string &, A &&...);
};
class Force { public: int newton, newton_pair, newton_bond; double boltz; };
class Memory {
 public:
  template <typename T> T *create(T *&, int, const char *);
  template <typename T> T **create(T **&, int, int, const char *);
  template <typename T> T *grow(T *&, int, const char *);
  template <typename T> T **grow(T **&, int, int, const char *);
  template <typename T> void destroy(T *&);
  template <typename T> void destroy(T **&);
};
class NeighRequest;
namespace NeighConst { enum { REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1, REQ_SIZE = 1 << 2, REQ_HISTORY = 1 << 3 }; }
class Neighbor { public: double skin, cutneighmax; NeighRequest *add_request(Pair *, int flags = 0); };
class Update { public: bigint ntimestep; char *unit_style; };
namespace utils {
template <typename... A> void logmesg(LAMMPS *, const std::string &, A &&...);
double numeric(const char *, int, const std::string &, bool, LAMMPS *);
int inumeric(const char *, int, const std::string &, bool, LAMMPS *);
}
class Pointers {
 public:
  Pointers(LAMMPS *);
  virtual ~Pointers() = default;
 protected:
  LAMMPS *lmp;
  Memory *&memory;
  Error *&error;
  Update *&update;
  Neighbor *&neighbor;
  Comm *&comm;
  Domain *&domain;
  Force *&force;
  Atom *&atom;
};
class Pair : protected Pointers {
 public:
  Pair(LAMMPS *);
  double eng_vdwl, eng_coul;
  double virial[6];
  double *eatom, **vatom;
  double cutforce;
  double **cutsq;
  int **setflag;
  int comm_forward, comm_reverse, comm_reverse_off;
  int single_enable, restartinfo, respa_enable, one_coeff, manybody_flag, unit_convert_flag, no_virial_fdotr_compute, writedata, ghostneigh, centroidstressflag;
  int allocated;
  int evflag, eflag_either, eflag_global, eflag_atom, vflag_either, vflag_global, vflag_atom, cvflag_atom, vflag_fdotr;
  NeighList *list, *listhalf, *listfull;
  void ev_init(int eflag, int vflag, int alloc = 1);
  void virial_fdotr_compute();
  virtual void compute(int, int) = 0;
  virtual void settings(int, char **) = 0;
  virtual void coeff(int, char **) = 0;
  virtual double init_one(int, int);
  virtual void init_style();
  virtual int pack_forward_comm(int, int *, double *, int, int *);
  virtual void unpack_forward_comm(int, int, double *);
  virtual int pack_reverse_comm(int, int, double *);
  virtual void unpack_reverse_comm(int, int *, double *);
  void ev_tally_xyz_full(int, double, double, double, double, double, double, double);
  void ev_tally_full(int, double, double, double, double, double, double);
  void v_tally2(int, int, double, double *);
};
}
