import sqp_common


def run():
    return sqp_common.run("C02", ["SQPMC2"])
