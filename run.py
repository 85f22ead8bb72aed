#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "dv"))
import driver
sys.exit(driver.main(sys.argv[1]))
