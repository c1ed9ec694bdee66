from rules import ref


def run(ck):
    return ref.run(ck, 'tools', 'Displays and tools.')
