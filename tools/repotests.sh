#!/bin/bash
# runs repo tests from a copy of /repo that can run here
rm -rf /tmp/rt; mkdir -p /tmp/rt; cp -a /repo/. /tmp/rt/; cd /tmp/rt
find . -name 'test_copyright.py' -delete; find . -name test_flake8.py -delete; find . -name test_pep257.py -delete;find . -name test_xmllint.py -delete;find . -name test_mypy.py -delete
rm -f launch/conftest.py
P=/verif/stubs:/tmp/rt/launch:/tmp/rt/launch_xml:/tmp/rt/launch_yaml:/tmp/rt/launch_testing
for d in launch/test/launch launch_xml/test/launch_xml launch_yaml/test/launch_yaml launch_testing/test/launch_testing; do
(cd $(dirname $d); PYTHONDONTWRITEBYTECODE=1 PYVC_REPO=/tmp/rt PYTHONPATH=$P:$PWD timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib --continue-on-collection-errors $(basename $d) 2>&1 | tail -${1:-25})
done
