from rules import ref


def run(ck):
    return ref.run(ck, 'noise', 'Noise, cell noise, low-discrepancy and random number code.')
