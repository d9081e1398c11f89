export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
D=$(mktemp -d /tmp/pfXXXX)
n=$2; s=$((n/8)); 
for j in 0 1 2 3 4 5 6 7; do timeout ${TO:-800} /opt/venv/bin/python /verif/tools/find.py $1 $((j*s)) $(((j+1)*s)) ${3:-1} > $D/pf.$j 2>$D/pfe.$j & done; wait
cat $D/pf.? | grep -v ^STAT | cut -c1-${W:-700}; grep -h ^STAT $D/pf.? | head -${NS:-2}; tail -n 3 -q $D/pfe.? | head -20
rm -r $D
