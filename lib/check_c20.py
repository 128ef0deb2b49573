import coll_common


def run():
    return coll_common.run("C20", "C", (700, 3608), (400, 4000))
