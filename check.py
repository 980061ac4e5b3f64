#!/opt/veriftools/pyvenv/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import fw, checks
if __name__ == '__main__':
    pid = sys.argv[1]
    sys.exit(fw.main(checks.CHECKS[pid](), sys.argv[2:]))
