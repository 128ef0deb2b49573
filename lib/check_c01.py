import sqp_common


def run():
    return sqp_common.run("C01", ["SQPMC1"])
