"""E08: scripts run exactly the selected statements"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlprog import *
QUICK = [("flow", 1600, P0)]
THOROUGH_ = [("flow", 9600, P0)]
if __name__ == "__main__":
    main(lambda: prog_check("E08", QUICK, THOROUGH_).finish())
