from rules import ref


def run(ck):
    return ref.run(ck, 'imaging', 'Filters, imagers, display manager.')
