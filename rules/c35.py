from rules import ref


def run(ck):
    return ref.run(ck, 'shadervm', 'Shader loading, shader data and arguments.')
