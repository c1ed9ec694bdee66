from rules import ref


def run(ck):
    return ref.run(ck, 'patches', 'Patches, NURBS, polygons, trim curves.')
