from rules import ref


def run(ck):
    return ref.run(ck, 'riutil', 'The interface library.')
