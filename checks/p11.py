from checks import p10

def main(ck):
    return p10.main(ck, "length")
