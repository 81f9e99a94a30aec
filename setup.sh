#!/bin/bash
# nothing to build: checks that the interpreters and solvers the framework needs are there
exec /opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import torch, z3, cvc5'
