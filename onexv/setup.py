"""Checks that the tools the framework needs are installed; nothing has to be built."""
import shutil, sys
missing = [t for t in ('clang++-18', 'why3', 'z3', 'z3-new', 'cvc5', 'g++') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
print('onexv: tools present')
