# dev build of the memory-access variant
set -e
out=$1; shift
R=${REPO:-/repo}
mkdir -p $out.d
SUTF="-std=c++20 -O1 -g1 -ftrivial-auto-var-init=pattern -DPYMATCHING_SIM_HOOKS -I$R/src -I/verif/stim_stub $*"
for f in $(find $R/src/pymatching -name '*.cc' | grep -v -E 'test|perf|pybind|diagram|fill_match_main'); do
 echo "clang++ $SUTF -fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores -c $f -o $out.d/sut_$(basename $f .cc).o"; done > $out.d/cmds
for f in /verif/sim/*.cc /verif/stim_stub/*.cc; do echo "clang++ $SUTF -I/verif/sim -c $f -o $out.d/h_$(basename $f .cc).o"; done >> $out.d/cmds
xargs -P8 -I{} sh -c '{}' < $out.d/cmds
clang++ $* $out.d/*.o -Wl,--wrap=malloc,--wrap=free,--wrap=pthread_mutex_lock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort -o $out -lpthread
