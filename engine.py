#!/usr/bin/env python3
"""engine.py PROPERTY: which engine decides the property (go, qgo or py)."""
import sys
QGO = {"C39", "C40"}
PY = {"C41", "C42", "C43", "C46", "C47", "C48", "C49", "C50", "C51", "C56", "C57", "C58", "C59", "C60", "C61", "C62", "C63", "C64", "C65"}
SIM = {"C45"}
p = sys.argv[1]
print("qgo" if p in QGO else "py" if p in PY else "sim" if p in SIM else "go")
