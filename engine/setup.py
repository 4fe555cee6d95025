import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import real, mirp
print(real.build())
print(len(mirp.dump()), "bytes of MIR")
