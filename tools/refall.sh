#!/bin/bash
# refall.sh KIND [MOD SEL]: applies one kind of behaviour-preserving rewriting all over a scratch copy of /repo and runs
# every check on it. Prints what the checks complain about (they should not).
K=$1; M=${2:-1}; S=${3:-0}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
D=/tmp/rf/$K-$M-$S; V=/tmp/rf/v-$K-$M-$S
mkdir -p /tmp/rf
[ -x /tmp/refactor ] || (cd /verif/tools/refactor && GOFLAGS=-mod=mod go build -o /tmp/refactor .)
rsync -a --delete --exclude .git /repo/ $D/
mkdir -p $V/evidence; cp /verif/known_findings.txt $V/
cd $D
DIRS="arwen config crypto ipc mandos-go mock/world math wasmer arwenmandos"
PK=$(for d in $DIRS; do echo ./$d/...; done)
GOFLAGS=-mod=readonly /tmp/refactor -dir $D -kind $K -mod $M -sel $S $DIRS
for i in 1 2 3 4 5 6; do
  bad=$(GOFLAGS=-mod=readonly go build -gcflags=-e $PK 2>&1 | grep -o '^[^ :]*\.go:' | sort -u | tr -d :)
  bad=$(for b in $bad; do [ -f "$b" ] && cmp -s "$b" /repo/$b || echo $b; done)
  [ -z "$bad" ] && break
  echo "restored: $bad" | tr '\n' ' ' | cut -c1-300; echo
  for b in $bad; do [ -f /repo/$b ] && cp /repo/$b $b; done
done
GOFLAGS=-mod=readonly timeout 1500 ${ANALYZER:-/verif/bin/analyzer} -verif $V -repo $D ${CHECKS:-all} 2>&1 | grep -v '^KNOWN\|^OK' | cut -c1-${W:-330}
[ "$KEEP" = 1 ] || rm -rf /tmp/rf/$K-$M-$S
rm -rf /tmp/rf/v-$K-$M-$S
