"""setup_cmd: nothing to compile; verify that the harness can start here."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import bootstrap

bootstrap.reexec([os.path.abspath(__file__)] + sys.argv[1:])
bootstrap.setup_path()
import hypothesis
import direpack

print("hypothesis", hypothesis.__version__, "direpack from", os.path.dirname(direpack.__file__))
