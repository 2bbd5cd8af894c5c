#!/usr/bin/env python3
"""Development: print the script of a random trace.  one.py PROFILE-I SEED"""
import sys, random
import gen
p, i = sys.argv[1].split("-")
r = random.Random("%s-%s-%s" % (p, i, sys.argv[2]))
print("T x\n" + "\n".join(o[0] for o in gen.script(p, r, 40)) + "\nE")
