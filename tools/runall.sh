cd /verif; for m in $(ls spec/*.py | xargs -n1 basename | sed 's/\.py$//' | grep -v wire_ref | grep -v try_); do python3 tools/sp.py $m "$@" | grep -v ^discharged | cut -c 1-260; done; for p in C01 C02 C03 C04; do python3 check.py --property $p ${1:+} | cut -c 1-200 | head -3; done
