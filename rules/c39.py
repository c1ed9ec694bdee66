from rules import ref


def run(ck):
    return ref.run(ck, 'hairgen', 'The hair procedural.')
