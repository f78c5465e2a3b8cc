"""C17, see pages.py"""
from . import pages


def check(c):
    pages.c17(c)
