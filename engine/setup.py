"""Builds the AST exporter; the checks also build it on demand."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts  # noqa: E402
print(facts.build_astx())
