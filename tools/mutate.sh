#!/bin/bash
# mutate.sh SEED N [FILE...]: runs tools/mutate on copies of /repo and /verif
# (FILE relative to /repo); appends to /tmp/mutants.jsonl
S=$1 N=$2; shift 2
W=/tmp/mutate.$S; mkdir -p $W/verif || exit 1
cp -a /repo $W/repo; cp -a /verif/mc /verif/known_findings.txt $W/verif/
sed -i "s|=> /repo|=> $W/repo|" $W/verif/mc/go.mod
(cd /verif/tools/mutate && GOFLAGS= GOWORK=off go build -o $W/mutate .)
F=(); for f in "$@"; do F+=("$W/repo/$f"); done
cd $W && MC_NORACE=1 ./mutate -seed $S -n $N -repo $W/repo -verif $W/verif -out /tmp/mutants.jsonl "${F[@]}" > /tmp/mutate.$S.log 2>&1
rm -rf "$W"
