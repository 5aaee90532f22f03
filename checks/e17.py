"""E17: NULL"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("null", 2200, 0, P2), ("null", 64, 40, P2)]
THOROUGH_ = [("null", 5600, 0, P2), ("null", 800, 40, P2)]
def check(): return sql_check("E17", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
