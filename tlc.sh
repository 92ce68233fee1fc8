#!/bin/bash
# tlc.sh CFG [args] MODULE: run TLC with the modules of /verif/spec on its path.
# TLC_MEM (heap), TLC_STOP (seconds after which it gives up), TLC_TMP (scratch directory)
here=$(cd "$(dirname "$0")" && pwd)
tmp=${TLC_TMP:-$(mktemp -d /tmp/tlc.XXXXXX)}
mkdir -p "$tmp"
# states are kept in memory: a queue on disk would spoil strings with characters beyond Latin-1
java -Xss512m -Xmx${TLC_MEM:-6g} -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Djava.io.tmpdir="$tmp" \
  -Dtlc2.tool.queue.IStateQueue=MemStateQueue -Dtlc2.TLC.stopAfter=${TLC_STOP:-800} -DTLA-Library="$here/spec" -XX:+UseParallelGC \
  -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
  -metadir "$tmp/meta" -noGenerateSpecTE -config "$@"
rc=$?
[ -n "$TLC_TMP" ] || rm -rf "$tmp"
exit $rc
