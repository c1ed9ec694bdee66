from rules import ref


def run(ck):
    return ref.run(ck, 'math', 'Vector, matrix, colour, spline, derivative, region and bound code.')
