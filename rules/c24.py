from rules import ref


def run(ck):
    return ref.run(ck, 'implicit', 'Blobbies, polygonisers, procedurals.')
