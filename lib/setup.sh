#!/bin/bash
# one-time preparation: the specification parses, its Java override compiles, and the driver builds
set -e
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p $V/.build/java $V/evidence
javac -d $V/.build/java -cp /opt/veriftools/tla/tla2tools.jar $V/java/BigRat.java
for m in SlipTrace; do (cd $V/spec && java -Djava.io.tmpdir=$V/.build -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla | grep -q "Semantic processing of module $m"); done
$V/lib/build.sh $V/.build/drv /repo
echo ready
