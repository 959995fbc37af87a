#!/bin/bash
# run1.sh PROP SEED [-v]: generates and runs a plan; history in /tmp/PROP-SEED.out, -v: event trace in /tmp/PROP-SEED.trace
exe=$(ls -t /verif/build/amqpsim-* | head -1)
export AMQPSIM_CERTS=/verif/sim/certs
b=/tmp/$1-$2
$exe gen $1 $2 > $b.plan
$exe run $b.plan ${3:-1} 2> $b.trace | grep -v "^L " | cut -c1-400 > $b.out
grep "^V" $b.out
