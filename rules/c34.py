from rules import ref


def run(ck):
    return ref.run(ck, 'slcomp', 'The shader compiler.')
