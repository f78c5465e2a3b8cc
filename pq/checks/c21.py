"""C21, see pages.py"""
from . import pages


def check(c):
    pages.c21(c)
