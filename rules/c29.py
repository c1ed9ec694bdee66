from rules import ref


def run(ck):
    return ref.run(ck, 'primvars', 'Primitive variable storage.')
