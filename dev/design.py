#!/usr/bin/env python3
"""fills DESIGN.md's per-property section and bug table from props/ and dev/results.txt"""
