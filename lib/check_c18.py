import coll_common


def run():
    return coll_common.run("C18", "E", (700, 3608), (400, 4000))
