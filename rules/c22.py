from rules import ref


def run(ck):
    return ref.run(ck, 'subdiv', 'Subdivision surfaces and laths.')
