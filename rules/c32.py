from rules import ref


def run(ck):
    return ref.run(ck, 'texold', 'Texture, shadow and environment maps of the core.')
