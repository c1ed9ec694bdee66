from rules import ref


def run(ck):
    return ref.run(ck, 'texfilter', 'Texture filtering and texture making.')
