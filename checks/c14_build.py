"""Builds the sanitized extension of C14 (the plain one is built by the framework)."""
from vlib import cppbuild

if __name__ == "__main__":
    cppbuild.ensure_extension(san=True)
