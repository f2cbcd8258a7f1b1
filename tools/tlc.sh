#!/bin/bash
# tlc.sh SPEC CFG [metadir] : TLC with the real-arithmetic override
V=$(dirname "$(dirname "$(readlink -f "$0")")")
exec java -Xss32m -Xmx3g -XX:+UseParallelGC -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RealOverrides -cp $V/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
