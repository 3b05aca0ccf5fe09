#!/bin/bash
# scratch.sh: copy /verif and /repo under $W (default /tmp/w; v, m) so that planted bugs can be tried without touching /repo
W=${W:-/tmp/w}
mkdir -p $W/v
[ -d $W/m ] || cp -a /repo $W/m
git -C $W/m checkout -q -- . ; git -C $W/m fetch -q /repo HEAD; git -C $W/m reset -q --hard FETCH_HEAD
[ -d $W/v/.build ] || cp -a /verif/.build $W/v/
for d in checks engine tools seeded replay; do mkdir -p $W/v/$d; cp -a /verif/$d/. $W/v/$d/; done
cp /verif/*.* $W/v/
sed -i "s#/repo/programs#$W/m/programs#g" $W/v/engine/*.sh $W/v/replay/Cargo.toml
sed -i "s#'/repo'#'$W/m'#g; s#/tmp/matrix.jsonl#$W/matrix.jsonl#g" $W/v/tools/matrix.py
