set -e
cd /verif && python3 meta/props.py && bash check.sh setup && python3 meta/gen.py && (cd meta && python3 -B design.py)
