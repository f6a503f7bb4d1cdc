#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irv import driver
if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(driver.replay(sys.argv[2]))
    sys.exit(driver.main(sys.argv[1:]))
