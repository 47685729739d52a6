"""functools.reduce, as Python text: the loop over a sequence of unknown length is then under a loop contract"""


def reduce(f, seq):
    acc = seq[0]
    kind = type(acc)
    same = True
    for x in seq[1:]:
        acc = f(acc, x)
        same = type(acc) is kind
    return acc
