#!/bin/bash
# t.sh MODULE [cfg] : runs TLC by hand
mkdir -p /tmp/tlcjava; cd /verif/spec; m=$1; c=${2:-$1}
java -Djava.io.tmpdir=/tmp/tlcjava -Xmx8g -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/tlcmeta-$$ -workers 8 -config $c.cfg $m.tla; rm -rf /tmp/tlcmeta-$$
