#!/bin/bash
# builds the simulator against the floaxie sources of a repository
# usage: build.sh REPO OUTDIR
set -e
repo=$1; out=$2; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
wraps=
for s in wmemset wmemmove wmemcpy \
	pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock \
	pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock \
	pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once \
	__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield usleep nanosleep setlocale uselocale \
	strtod strtof wcstod wcstof strtod_l strtof_l wcstod_l wcstof_l
do wraps="$wraps -Wl,--wrap=$s"; done
common="-std=c++14 -g1 -fno-pie -D_GLIBCXX_EXTERN_TEMPLATE=0"
pids=
run() { "$@" & pids="$pids $!"; }
core_objs=
coreflags="-std=c++17 -O2 -g1 -fno-pie -fno-builtin-malloc -fno-builtin-calloc -Wall -Wextra"
corekey=$( (cat "$here"/sim/core.h "$here"/sim/sys.h "$here"/sim/core.cpp "$here"/sim/oracle.cpp "$here"/sim/gen.cpp "$here"/sim/main.cpp "$here"/sim/life.cpp "$here"/sim/life.h; echo "$coreflags") | sha256sum | cut -c1-16)
cdir=$here/build/core-$corekey
if [ ! -f "$cdir/ok" ]; then
	mkdir -p "$cdir"
	for f in core oracle gen main life; do run g++ $coreflags -c "$here/sim/$f.cpp" -o "$cdir/$f.o.$$"; done
fi
run /usr/bin/clang++ $common -O1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS -DFSIM_VARIANT='"A"' -I"$repo/include" -c "$here/sim/sys.cpp" -o "$out/sysA.o"
run g++ $common -O2 -DNDEBUG -fsanitize=thread -Wno-tsan -DFSIM_VARIANT='"B"' -I"$repo/include" -c "$here/sim/sys.cpp" -o "$out/sysB.o"
# the same sources as a later standard (of which they do not have to be correct programs)
variant_c() { /usr/bin/clang++ $common "$@" -O0 -fsanitize=thread -DFSIM_VARIANT='"C"' -I"$repo/include" -c "$here/sim/sys.cpp" -o "$out/sysC.o"; }
later() { variant_c -std=c++20 2>/dev/null || variant_c; }
run later
for p in $pids; do wait $p; done
if [ ! -f "$cdir/ok" ]; then
	for f in core oracle gen main life; do mv "$cdir/$f.o.$$" "$cdir/$f.o"; done
	touch "$cdir/ok"
fi
for v in A B C; do
	g++ -no-pie -o "$out/fsim$v" "$out/sys$v.o" "$cdir"/{core,oracle,gen,main,life}.o $wraps -lpthread
done
if [ ! -f "$here/build/loc/ok" ]; then
	mkdir -p "$here/build/loc"
	for l in de_DE tr_TR fa_IR ps_AF; do localedef -f UTF-8 -i $l "$here/build/loc/$l.utf8" || true; test -f "$here/build/loc/$l.utf8/LC_NUMERIC"; done
	touch "$here/build/loc/ok"
fi
