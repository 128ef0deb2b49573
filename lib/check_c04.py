import sqp_common


def run():
    return sqp_common.run("C04", ["SQPMC1"])
