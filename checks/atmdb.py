"""What the atmosphere database contains (atmosphere_README.txt), written down independently of its index file."""
RANGES = [0.0, 100.0, 500.0] + [1000.0 * k for k in range(1, 21)] + [2000.0 * k for k in range(11, 41)] + [5000.0 * k for k in range(17, 61)]
COUNT = {2.0: 8, 32.5: 23, 75.0: 28, 150.0: 34, 225.0: 39, 500.0: 52, 1000.0: 59, 2000.0: 68, 3000.0: 76, 4000.0: 82, 5000.0: 87, 6000.0: 92, 7000.0: 96,
         8000.0: 97, 9000.0: 97, 10000.0: 97, 11000.0: 97, 12000.0: 97, 14000.0: 97, 16000.0: 97, 18000.0: 97, 20000.0: 97}
ALTS = sorted(COUNT)


def index():
    """(altitude, ground range, haze) -> number of the record"""
    out, n = {}, 0
    for z in (1, 2):
        for a in ALTS:
            for g in RANGES[:COUNT[a]]:
                n += 1
                out[a, g, z] = n
    for z in (1, 2):
        for g in RANGES:
            n += 1
            out[24500.0, g, z] = n
    for z in (1, 2):
        n += 1
        out[550000.0, 0.0, z] = n
    return out


INDEX = index()
