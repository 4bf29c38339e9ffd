"""Contracts, one module per property (plus spec.py: the shared specification functions)."""
import importlib


def load(prop):
    importlib.import_module('props.' + prop)
