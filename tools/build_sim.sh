#!/bin/bash
# build_sim.sh OUTDIR [sweep|utils|all]: builds the simulated sweep (simsweep)
# and the mesh utilities from /repo's current working tree.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
O=$1; what=${2:-all}
mkdir -p "$O"
W="-I$R/src -std=c++11 -include cstdint -include cstring -include cstdlib -w -I$V/sim -I$V/sim/petsc"
APP="-O1 -fopenmp -fsanitize=thread -DASSERT_ON=1 -DUSE_PETSC=1 -DTYCHO2_VERIF -Dmain=tycho_main"
{
echo "all: sweep utils"
objs=""
for s in "$R"/src/*.cc; do
    b=$(basename "$s" .cc); objs="$objs $O/app_$b.o"
    echo "$O/app_$b.o: $s; g++ $W $APP -c $s -o \$@"
done
sobj=""
for b in guard sim simmpi simomp simpetsc simmain; do
    sobj="$sobj $O/$b.o"
    echo "$O/$b.o: $V/sim/$b.cc; g++ $W -O2 -c $V/sim/$b.cc -o \$@"
done
echo "$O/hooks.o: $V/sim/hooks.cc; g++ $W -O2 -I$R/src -DASSERT_ON=1 -DUSE_PETSC=1 -DTYCHO2_VERIF -c $V/sim/hooks.cc -o \$@"
echo "sweep: $O/simsweep"
echo "$O/simsweep: $objs $sobj $O/hooks.o; g++ -o \$@ \$^ -lpthread"
U="-Wall -w -std=c++11 -O1 -include cstdint -DPARALLEL_MESH_READ_SERIAL_ONLY"
ul=""
uo=""
for b in SerialMesh ParallelMesh; do
    uo="$uo $O/u_$b.o"
    echo "$O/u_$b.o: $R/src/$b.cc; mpicxx $U -I$R/src -c $R/src/$b.cc -o \$@"
done
for u in PartitionColumns PartitionMetis SerialMeshInfo RefineSerialMesh; do
    ul="$ul $O/$u"
    l=""; [ $u = PartitionMetis ] && l="$V/sim/simmetis.cc -Wl,--wrap=METIS_PartGraphKway,--wrap=METIS_PartGraphRecursive -lmetis"
    echo "$O/$u: $uo $R/util/$u.cc; mpicxx $U -DGUARD_ATEXIT -I$R/src $R/util/$u.cc $V/sim/guard.cc $uo -o \$@ $l"
done
ul="$ul $O/ParallelMeshInfo"
echo "$O/ParallelMeshInfo: $R/util/ParallelMeshInfo.cc $sobj; g++ $W -I$R/src -O1 -Dmain=tycho_main $R/util/ParallelMeshInfo.cc $R/src/SerialMesh.cc $R/src/ParallelMesh.cc $R/src/Comm.cc $R/src/Assert.cc $sobj -o \$@ -lpthread"
ul="$ul $O/meshtool $O/cmeshtool"
echo "$O/meshtool: $uo $V/sim/meshtool.cc; g++ $U -DGUARD_ATEXIT -I$R/src $V/sim/meshtool.cc $V/sim/guard.cc $uo -o \$@"
echo "$O/cmeshtool: $V/sim/meshtool.cc $sobj; g++ $W -I$R/src -O1 -Dmain=tycho_main $V/sim/meshtool.cc $R/src/SerialMesh.cc $R/src/ParallelMesh.cc $R/src/Comm.cc $R/src/Assert.cc $sobj -o \$@ -lpthread"
echo "utils: $ul"
} > "$O/Makefile"
rm -f "$O"/*.o
make -s -j8 -f "$O/Makefile" "$what"
