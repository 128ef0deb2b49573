import sqp_common


def run():
    return sqp_common.run("C03", ["SQPMC1"])
