#!/bin/bash
# nothing to build: checks that the interpreter, the code under test and the solver are present
cd "$(dirname "$0")"
/opt/venv/bin/python -W ignore -c "
import symx, symx.core as c, rxn_network
print('z3', c.z3.get_version_string(), 'rxn_network', rxn_network.__file__)"
