#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S=/repo/libsymmetrix/source
export OPENBLAS_NUM_THREADS=1
g++ -std=c++20 -O1 -w -I "$D" -I "$S" -I /opt/vp/cmake/shim/source "$D/driver.cpp" $S/mace.cpp $S/cubic_spline.cpp $S/cubic_spline_set.cpp $S/multilayer_perceptron.cpp $S/multivariate_polynomial.cpp $S/tools.cpp $S/zbl.cpp -o "$T/drv" -lopenblas || exit 3
python3 "$D/gen.py" "$T/m.json" ARGS || exit 3
"$T/drv" "$T/m.json" || exit 1
