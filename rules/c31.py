from rules import ref


def run(ck):
    return ref.run(ck, 'teximage', 'Image buffers, image files, point clouds.')
