#!/usr/bin/env python3
"""Nothing to prepare: every check compiles its harness from /repo's working tree. Makes sure that the compiler works."""
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, 't.cpp')
    open(src, 'w').write('#include <bits/stdc++.h>\nint main() { return std::string{}.size(); }\n')
    sys.exit(subprocess.run(['g++', '-std=c++20', '-pthread', src, '-o', os.path.join(d, 't')]).returncode)
