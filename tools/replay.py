#!/usr/bin/env python3
"""replay.py NATIVE.so ENTRY: runs one harness entry natively (inputs etc. come from the environment)."""
import ctypes, sys
lib = ctypes.CDLL(sys.argv[1])
lib.verif_replay(ctypes.cast(getattr(lib, sys.argv[2]), ctypes.c_void_p))
