from rules import ref


def run(ck):
    return ref.run(ck, 'sampling', 'Hit testing, sampling, occlusion, buckets, CSG.')
