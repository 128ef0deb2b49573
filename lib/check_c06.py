import qp_common


def run():
    return qp_common.run("C06")
