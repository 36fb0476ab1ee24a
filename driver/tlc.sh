#!/bin/sh
# usage: tlc.sh XMX args...   (offline TLC with a deep stack)
mx=$1; shift
exec java -Xmx$mx -Xss256m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
