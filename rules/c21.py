from rules import ref


def run(ck):
    return ref.run(ck, 'curves', 'Curves and points.')
