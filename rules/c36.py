from rules import ref


def run(ck):
    return ref.run(ck, 'shadeops', 'Shading operations.')
