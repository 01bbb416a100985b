#!/bin/bash
# Development build: incremental, into /tmp/simdev.
set -e
D=${D:-/tmp/simdev}; R=${R:-/repo}; mkdir -p $D
cd /verif/sim
fl="-std=c++11 -O1 -g0 -include alien.h -I. -I$R -ftrivial-auto-var-init=pattern -Wno-unused ${XF}"
for f in *.cpp $R/erk.cpp $R/irk.cpp $R/newton.cpp; do
  o=$D/$(basename $f .cpp).o
  if [ ! -f $o ] || [ -n "$(find $f *.hpp *.h $( [[ $f == glue* || $f == /* || $f == props_buf* ]] && ls $R/*.hpp ) -newer $o 2>/dev/null | head -1)" ]; then
    echo "g++ $fl -c $f -o $o || { rm -f $o; echo FAIL $f; exit 255; }"
  fi
done | xargs -P 8 -I{} bash -c '{}'
g++ $D/*.o -o $D/sim -larmadillo -lpthread -ldl -rdynamic -Wl,--allow-multiple-definition
