#!/bin/bash
# usage: tlc.sh <memory, e.g. 4g> <tlc arguments...>   (TLC with the overrides of /verif/java)
D="$(cd "$(dirname "$0")/.." && pwd)"
CM=/opt/veriftools/tla/CommunityModules-deps.jar
JAR=/opt/veriftools/tla/tla2tools.jar
M="$1"; shift
exec java -XX:+UseParallelGC -Xmx"$M" -Xss32m -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.RatOverrides \
  -DTLA-Library="$D/spec" -cp "$D/build/java:$JAR:$CM" tlc2.TLC "$@"
