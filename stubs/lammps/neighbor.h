#include "lammps_stub.h"
