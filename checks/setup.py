"""setup: nothing is built; verifies that the analyser can run here"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import lib2to3, ast, fractions
from clfstatic import check
print('ready: %s' % sys.version.split()[0])
