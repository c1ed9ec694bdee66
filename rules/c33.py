from rules import ref


def run(ck):
    return ref.run(ck, 'gi', 'Point-based integration.')
