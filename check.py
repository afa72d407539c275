#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo.

Every check combines
  MC       TLC explores the specification exhaustively at small frame sizes;
  replay   behaviours of the specification, generated by TLC, are executed by
           the real code;
  monitor  the real code is driven with far more inputs and judged by tables
           that TLC exported from the specification;
  record   runs of the real code are judged by TLC.
See DESIGN.md."""
import sys
sys.dont_write_bytecode = True
from vlib import main
import p_recv, p_front, p_send, p_data, p_build, p_capture

TABLE = {}
for m in (p_recv, p_front, p_send, p_data, p_build, p_capture):
    TABLE.update(m.CHECKS)

if __name__ == "__main__":
    sys.exit(main(TABLE))
