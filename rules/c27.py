from rules import ref


def run(ck):
    return ref.run(ck, 'state', 'Attributes, options, transforms, lights, modes.')
