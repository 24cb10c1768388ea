"""Compare z3 and cvc5 on the queries of a check: tools/twosolver.py C01 C02 ... (not part of any registered command)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CVC5 = shutil.which('cvc5')


def ask(path):
    r = subprocess.run([CVC5, '--lang=smt2', '--tlimit=20000', path], capture_output=True, text=True)
    return (r.stdout.split() or ['none'])[0]


for pid in sys.argv[1:]:
    d = tempfile.mkdtemp(prefix='twosolver.')
    try:
        subprocess.run(['bash', os.path.join(HERE, 'run.sh'), pid], env=dict(os.environ, VX_DUMP=d), capture_output=True)
        files = sorted(os.listdir(d))[:240]
        with ThreadPoolExecutor(8) as ex:
            ans = list(ex.map(ask, [os.path.join(d, f) for f in files]))
        same = sum(a == f.split('-')[0] for a, f in zip(ans, files))
        diff = [(f, a) for a, f in zip(ans, files) if a in ('sat', 'unsat') and a != f.split('-')[0]]
        print('%s: %d queries, %d same verdict, %d without answer from cvc5, %d different %s'
              % (pid, len(files), same, len(files) - same - len(diff), len(diff), diff[:3]))
    finally:
        shutil.rmtree(d)
