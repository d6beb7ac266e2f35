#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 held, 1 violation, 2 no answer (for instance: does not build)
cd "$(dirname "${BASH_SOURCE[0]}")"
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
. h/env.sh
case $id in
  D*) n=dem ;; E*) n=ele ;; S*) n=slash ;; M*) n=mac ;; L*) n=lin ;; P*|C*) n=pxy ;; T*) n=dsp ;; F*) n=fnd ;; K*) n=stk ;; R*) n=rec ;; O*) n=ocw ;; X*) n=rtc ;; *) echo "unknown property $id" >&2; exit 2 ;;
esac
bash h/build1.sh "$n" || exit 2
"$CARGO_TARGET_DIR/debug/$n" "$id"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
