from props import tsortlib


def check(c):
    tsortlib.run(c, 'order')
