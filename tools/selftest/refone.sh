# refone.sh SCRIPT NAME [checks]: apply one mutant to /tmp/w and run all checks
cd /tmp; python3 one.py $1 "$2" >/dev/null 2>&1; REPO=/tmp/w VH=/tmp/vh2 bash /tmp/allchk.sh ${3:-4} | grep -v " 0 undecided, 0 violated\|C06.*108 und"
