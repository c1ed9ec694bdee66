from rules import ref


def run(ck):
    return ref.run(ck, 'quadrics', 'Quadrics and the code common to all surfaces.')
