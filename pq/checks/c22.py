"""C22, see pages.py"""
from . import pages


def check(c):
    pages.c22(c)
