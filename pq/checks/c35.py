"""C35, see pages.py"""
from . import pages


def check(c):
    pages.c35(c)
