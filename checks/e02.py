"""E02: joins"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("join", 1700, 0, P2), ("join", 96, 9, P2)]
THOROUGH_ = [("join", 5600, 0, P2), ("join", 1200, 9, P2)]
def check(): return sql_check("E02", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
