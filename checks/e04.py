"""E04: ORDER BY and TOP"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("order", 1900, 0, P2), ("order", 64, 40, P2)]
THOROUGH_ = [("order", 5600, 0, P2), ("order", 1200, 60, P2)]
def check(): return sql_check("E04", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
