#!/usr/bin/env python3
"""print source files without their test modules"""
import sys,re
for f in sys.argv[1:]:
    print('=====',f)
    for i,l in enumerate(open(f),1):
        if re.match(r'#\[cfg\(test\)\]',l): break
        print(l.rstrip())
