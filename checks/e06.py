"""E06: subqueries"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("subq", 1900, 0, P2), ("subq", 64, 20, P2)]
THOROUGH_ = [("subq", 5600, 0, P2), ("subq", 800, 20, P2)]
def check(): return sql_check("E06", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
