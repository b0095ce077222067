#!/bin/bash
# Run the repository's own functional tests (which need ament_index_python, absent here) on a scratch
# copy of /repo with the stub package.  Not a check: used to validate fixes and planted bugs.
# usage: functional_tests.sh [SRC=/repo]
SRC=${1:-/repo}
W=$(mktemp -d /tmp/functests.XXXXXX)
cp -a "$SRC" "$W/r"
R=$W/r
find "$R" -name 'test_copyright.py' -o -name 'test_flake8.py' -o -name 'test_pep257.py' -o -name 'test_xmllint.py' -o -name test_mypy.py | xargs rm -f
export PYTHONPATH=/verif/lib/stubs:$R/launch:$R/launch_xml:$R/launch_yaml:$R/launch_testing:$R/launch_pytest:$R/launch/test
mkdir -p $W/prefix/launch_testing/lib; ln -s $R/launch_testing/example_processes $W/prefix/launch_testing/lib/launch_testing
export VERIF_PREFIX=$W/prefix
export VERIF_REPO=$R PYTHONDONTWRITEBYTECODE=1 ROS_LOG_DIR=$W/log
for p in launch launch_xml launch_yaml launch_testing launch_pytest; do
  echo "== $p"
  cd "$R/$p" && timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors test 2>&1 < /dev/null | grep -E '^(FAILED|ERROR) test|^[0-9]+ (passed|failed)' | tail -60
done
rm -rf "$W"
