#!/bin/bash
exec java -XX:+UseParallelGC -Xmx${TLC_MEM:-8g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
