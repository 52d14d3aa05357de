#!/bin/bash
# run every bounded case of the given properties (development helper): quiet.sh CASES PROP..
n=$1; shift
[ $# = 0 ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19
export JV_NODE=${JV_NODE:-$(ls /verif/.build/*/debug/libjinja_lsp_nodejs.so /verif/.build/*/*/libjinja*node*.so 2>/dev/null | head -1)}
for p in "$@"; do echo "$p"; done | xargs -P 4 -I{} sh -c "timeout 300 /verif/.build/harness/debug/jv run {} --cases $n --fixed 400 --seed 7 --time 100 > /tmp/q.{} 2>&1; head -c 900 /tmp/q.{} | sed 's/^/{} /'; echo"
