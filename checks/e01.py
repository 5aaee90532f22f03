"""E01: WHERE keeps exactly the rows its condition holds for"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
QUICK = [("where", 2000, 0, P2), ("where", 96, 60, P2)]
THOROUGH_ = [("where", 5600, 0, P2), ("where", 1200, 60, P2)]
def check(): return sql_check("E01", QUICK, THOROUGH_)
if __name__ == "__main__":
    main(lambda: check().finish())
