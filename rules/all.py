from .base import RULES, EARLY
from . import bitset, ops, files, cli, python, ambient, inspect, options
