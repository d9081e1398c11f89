# det.sh PID N SEED: the same runs in two orders must have the same histories
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
n=$2; s=$((n/4))
for j in 0 1 2 3; do for o in fwd rev; do timeout 800 /opt/venv/bin/python /verif/tools/det.py $1 $((j*s)) $(((j+1)*s)) $3 $o > /tmp/det.$j.$o 2>/tmp/det.e.$j.$o & done; done; wait
for j in 0 1 2 3; do diff <(sort /tmp/det.$j.fwd) <(sort /tmp/det.$j.rev); done; cat /tmp/det.?.fwd | wc -l
