from lib import atprops


def run(ctx):
    atprops.run(ctx, "P21")
