from rules import ref


def run(ck):
    return ref.run(ck, 'grammar', 'The shading language grammar and scanner.')
