"""Contracts of the properties, one module per area."""
import importlib
import pkgutil


def load_all():
    for m in sorted(pkgutil.iter_modules(__path__), key=lambda m: m.name):
        importlib.import_module(f"contracts.{m.name}")
