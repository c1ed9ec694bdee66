from rules import ref


def run(ck):
    return ref.run(ck, 'requests', 'The requests of the renderer core.')
