from rules import ref


def run(ck):
    return ref.run(ck, 'logs', 'Log streams, statistics, reference counts, work units, declaration lookup.')
