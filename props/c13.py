from props import flaglib


def check(c):
    flaglib.run(c, 'good')
