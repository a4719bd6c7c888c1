import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0] if "/" in __file__ else ".")
from sa.run import main
sys.exit(main(sys.argv[1].upper()))
