#!/bin/bash
# dev/muts.sh PROP... < lines "FILE#OLD#NEW#K": runs dev/mut.sh for each
while IFS='#' read -r f o n k; do [ -z "$f" ] && continue; printf '%s | ' "${o:0:50} -> ${n:0:50}"; K=${k:-1} "$(dirname "$0")/mut.sh" "$f" "$o" "$n" "$@" 2>&1 </dev/null | grep -v "^ *path" | tail -2 | head -1| cut -c1-190; done
