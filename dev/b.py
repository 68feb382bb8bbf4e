"""rebuild the crates under check (optionally replay binaries too)"""
import sys
sys.path.insert(0, "/verif")
import check
print(check.build(sys.argv[1:]))
