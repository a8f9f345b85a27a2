"""REST2 (Gueymard 2003 app. B, Gueymard 2008), written from the published parameterisation"""
import math

E0N = (635.4, 709.7)          # UV+visible, short infrared
SSA = (0.92, 0.84)
GROUND = 0.150
BANDS = ('high-frequency', 'low-frequency')


def ratio(num, den, x):
    p = sum(c * x ** k for k, c in enumerate(num))
    return p / sum(c * x ** k for k, c in enumerate(den))


def mass(kind, alt):
    z = 90 - alt
    a, b, c, d = {'rayleigh': (.48353, .095846, 96.741, 1.754), 'ozone': (1.0651, .6379, 101.8, 2.2694),
                  'water': (.10648, .11423, 93.781, 1.9203), 'aerosol': (.16851, .18198, 95.318, 1.9542)}[kind]
    return 1 / (math.cos(math.radians(z)) + a * z ** b / (c - z) ** d)


def rayleigh_mass(alt, mbar):
    return mbar / 1013.25 * mass('rayleigh', alt)


def t_rayleigh(b, m):
    return ratio((1, 1.8169, -.033454), (1, 2.063, .31978), m) if b == 0 else ratio((1, -.010394), (1, 0, -.00011042), m)


def t_gas(b, m):
    return ratio((1, .95885, .012871), (1, .96321, .015455), m) if b == 0 else ratio((1, .27284, -.00063699), (1, .30306), m)


def t_ozone(b, m, u):
    if b:
        return 1.0
    f1 = u * ratio((10.979, -8.5421), (1, 2.0115, 40.189), u)
    f2 = u * ratio((-.027589, -.005138), (1, -2.4857, 13.942), u)
    f3 = u * ratio((10.995, -5.5001), (1, 1.6784, 42.406), u)
    return ratio((1, f1, f2), (1, f3), m)


def t_no2(b, m, u):
    if b:
        return 1.0
    g1 = ratio((.17499, 41.654, -2146.4), (1, 0, 22295.0), u)
    g2 = u * ratio((-1.2134, 59.324), (1, 0, 8847.8), u)
    g3 = ratio((.17499, 61.658, 9196.4), (1, 0, 74109.0), u)
    return min(1.0, ratio((1, g1, g2), (1, g3), m))


def water_coefficients(b, w):
    if b == 0:
        return (w * ratio((.065445, .00029901), (1, 1.2728), w), w * ratio((.065687, .0013218), (1, 1.2008), w))
    return (w * ratio((19.566, -1.6506, 1.0672), (1, 5.4248, 1.6005), w), w * ratio((.50158, -.14732, .047584), (1, 1.1811, 1.0699), w),
            w * ratio((21.286, -.39232, 1.2692), (1, 4.8318, 1.412), w), w * ratio((.70992, -.23155, .096514), (1, .44907, .75425), w))


def t_water(b, m, w):
    c = water_coefficients(b, w)
    return ratio((1, c[0]), (1, c[1]), m) if b == 0 else ratio((1, c[0], c[1]), (1, c[2], c[3]), m)


def wavelength(b, m, a, beta):
    u = math.log(1 + m * beta)
    if b == 0:
        d = (.57664 - .024743 * a, ratio((.093942, -.2269, .12848), (1, .6418), a), ratio((-.093819, .36668, -.12775), (1, -.11651), a),
             a * ratio((.15232, -.087214, .012664), (1, -.90454, .26167), a))
    else:
        d = (ratio((1.183, -.022989, .020829), (1, .11133), a), ratio((-.50003, -.18329, .23835), (1, 1.6756), a),
             ratio((-.50001, 1.1414, .0083589), (1, 11.168), a), ratio((-.70003, -.73587, .51509), (1, 4.7665), a))
    return (d[0] + d[1] * u + d[2] * u * u) / (1 + d[3] * (u * u if b == 0 else u))


def pole(b, m, a, beta):
    """denominator of the effective wavelength: near 0 the quotient is ill-conditioned"""
    u = math.log(1 + m * beta)
    d3 = a * ratio((.15232, -.087214, .012664), (1, -.90454, .26167), a) if b == 0 else ratio((-.70003, -.73587, .51509), (1, 4.7665), a)
    return 1 + d3 * (u * u if b == 0 else u)


def depth(beta, lam, a):
    return beta * lam ** -a


def t_aerosol(m, tau):
    return math.exp(-m * tau)


def correction(b, m, tau):
    if b == 0:
        k = (ratio((3.715, .368, .036294), (1, 0, .0009391), m), ratio((-.164, -.72567, .20701), (1, 0, .001901), m),
             ratio((-.052288, .31902, .17871), (1, 0, .0069592), m))
    else:
        q = m ** 1.5
        k = ((3.4352 + .65267 * m + .00034328 * m * m) / (1 + .034388 * q), (1.231 - 1.63853 * m + .20667 * m * m) / (1 + .1451 * q),
             (.8889 - .55063 * m + .50152 * m * m) / (1 + .14865 * q))
    return (k[0] + k[1] * tau) / (1 + k[2] * tau)


def forward_rayleigh(b, m):
    return .5 * (.89013 - .049558 * m + .000045721 * m * m) if b == 0 else .5


def forward_aerosol(alt):
    return 1 - math.exp(-.6931 - 1.8326 * math.cos(math.radians(90 - alt)))


def sky_albedo(b, a, beta):
    if b == 0:
        return (.13363 + .00077358 * a + beta * (.37567 + .22946 * a) / (1 - .10832 * a)) / (1 + beta * (.84057 + .68683 * a) / (1 - .08158 * a))
    return (.010191 + .00085547 * a + beta * (.14618 + .062758 * a) / (1 - .19402 * a)) / (1 + beta * (.58101 + .17426 * a) / (1 - .17586 * a))


def normal(b, alt, p=1013.25, uo=.35, un=.0002, w=5.0, a=1.3, beta=.6):
    ma, mw, mr = mass('aerosol', alt), mass('water', alt), rayleigh_mass(alt, p)
    tau = depth(beta, wavelength(b, ma, a, beta), a)
    return (E0N[b] * t_rayleigh(b, mr) * t_gas(b, mr) * t_ozone(b, mass('ozone', alt), uo) * t_no2(b, mw, un) * t_water(b, mw, w)
            * t_aerosol(ma, tau))
