"""run the tests of the scratch copy in cwd; exit 0 if all stable tests of the baseline pass"""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
shutil.rmtree('tests/test_output', ignore_errors=True)
os.mkdir('tests/test_output')
x = tempfile.mktemp(suffix='.xml')
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=60', '--tb=no',
                '-o', 'junit_family=xunit2', '--junitxml=' + x], env=env, capture_output=True)
ok = set()
for t in ET.parse(x).iter('testcase'):
    if not list(t):
        ok.add(t.get('classname') + '::' + t.get('name'))
os.unlink(x)
bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
print(len(bad), 'stable tests fail', bad[:5])
sys.exit(1 if bad else 0)
