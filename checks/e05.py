"""E05: DISTINCT and UNION ALL"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("distinct", 1000, 0, P2), ("union", 900, 0, P2), ("distinct", 48, 40, P2), ("union", 32, 40, P2)]
THOROUGH_ = [("distinct", 5600, 0, P2), ("union", 5600, 0, P2), ("distinct", 600, 60, P2), ("union", 600, 40, P2)]
def check(): return sql_check("E05", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
