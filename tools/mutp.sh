#!/bin/bash
# mutp.sh SPEC.py [-t] [ids]: mut.py over all (or the given) ids, four at a time
S=$1; shift; T=; [ "$1" = -t ] && { T=-t; shift; }
I="$*"; [ -z "$I" ] && I=$(python3 -c "
g={};exec(open('$S').read(),g);print(' '.join(m['id'] for m in g['MUTS']))")
echo $I | tr ' ' '\n' | xargs -P ${J:-4} -I{} sh -c "python3 /verif/tools/mut.py $S $T {} 2>&1 | cut -c1-${W:-260}"
